import json
import subprocess
P=[]
def w(x,files):
    b=x.split('::')[-1].replace('operator()','operator()')
    for f in files:
        t=open('/repo/'+f).read().splitlines()
        for l in t:
            if b in l: return f
    return files[0]

def p(id,title,statement,over,text,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=w(x,files)) for x in symbols])))
D='include/hsm/details/'
p('C01','A new machine starts in its declared initial configuration',
 'A freshly constructed machine is, in every region of its root state, in the state marked initial for that region (regions numbered in declaration order), with the root as active parent state, the number of active regions equal to the number of initial states of the root, no deferred event, and an empty history: entering a sub state by history for the first time yields its initial state.',
 ['programs','configurations'],'every machine description and every set of constructor arguments',
 'Tests construct a handful of machines and look at one or two regions; nothing relates the initial configuration to the declaration for all machines.',
 [D+'sm.h',D+'collect_initial_states.h',D+'idx.h'],['sm::sm','sm::init_current_state','fill_initial_state_table','make_initial_state_map','getCombinedStateIdx'])
p('C02','An event makes each region take its first enabled transition and no other',
 'For every event and every configuration, each active region, in region order up to a region that defers the event, evaluates the guards of its candidate transitions strictly in priority order and takes the first one that is enabled: that region then is in the target configuration of that transition, exactly that transition is executed, exactly once, and no guard after it is evaluated. A region with no enabled candidate keeps its configuration, and no region changes the configuration of another active region.',
 ['inputs','histories','programs'],'all dispatch table contents and lengths, all guard outcomes, all event values, all reachable configurations, any number of earlier events',
 'Tests sample one outcome per guard on tables of at most a few rows; the property is about every table content and guard outcome, with loops of any length.',
 [D+'sm.h',D+'dispatch_table.h'],['sm::process_event','sm::process_event_internal','sm::update_current_state','sm::get_dispatch_table_entry'])
p('C03','process_event reports exactly what happened to the event',
 'process_event returns true if and only if some region took a transition and the event was not deferred. The unexpected event handler, if the root declares one, is called exactly once, with the event and the current state of the first region, if and only if no active region had a candidate transition for the event; it is not called when a guard rejected the event or when the event was deferred.',
 ['inputs','histories','programs'],'all dispatch table contents, guard outcomes, events and reachable configurations, with and without a handler, for any number of regions',
 'Tests check a few return values on fixed tables; the classification of mixed outcomes over several regions and candidates is not sampled.',
 [D+'sm.h',D+'make_unexpected_event_handler_tables.h',D+'fill_unexpected_event_handler_tables.h'],['sm::process_event','sm::call_unexpected_event_handler','UnexpectedEventHandler::executeHandler'])
p('C04','Anonymous transitions run to quiescence after each transition',
 'After an event made some region take a transition, enabled anonymous transitions are taken, region by region and in priority order, until no region can take one, before the event is reported as processed; they are not looked at when no transition was taken. When processing ends, every anonymous guard of every active region has been evaluated to false since the last transition.',
 ['inputs','histories','programs'],'all table contents and all guard outcomes, chains of any length',
 'Tests contain chains of one or two anonymous transitions with constant guards; the stopping condition for arbitrary guard outcomes and several regions is not reachable by them.',
 [D+'sm.h',D+'transition_table_traits.h'],['sm::process_anonymous_transitions','has_anonymous_transition'])
p('C05','Deferred events are kept, in order, and retried exactly once per retry',
 'An event reaching a region whose current state defers it is appended, with its value, to the deferred events and executes nothing further; no other event is ever stored. After each event that was processed by a transition, the oldest deferred event (and only that one) is removed and offered once to the machine as it then is, with the value it was sent with; deferred events are otherwise neither lost, duplicated nor reordered.',
 ['inputs','histories','programs'],'all event sequences and values, all queue contents and lengths, all tables',
 'Tests defer one event and replay it; queue contents, order, values and re-deferral over longer histories are not covered.',
 [D+'sm.h',D+'variant_queue.h',D+'fill_dispatch_table.h'],['sm::process_event_internal','sm::process_deferred_events','variant_queue::push','variant_queue::visit','fill_dispatch_table_with_deferred_events'])
p('C06','History re-enters the state the region last left',
 'A transition to the history of a sub state puts the region in the state of that sub state in which the region last took a transition that was not internal, or in the initial state of the sub state if there is none; the history of every other parent state and region is unaffected by a transition. Transitions not targeting a history never consult it.',
 ['histories','inputs','programs'],'all sequences of transitions, configurations, regions and tables',
 'Tests enter a history once or twice; the relation between arbitrary earlier transitions and the recorded state cannot be sampled.',
 [D+'sm.h',D+'idx.h',D+'resolve_state.h'],['sm::update_current_state','calcParentStateIdx','resolveHistory'])
p('C07','The machine implements exactly the declared transition tables',
 'For every parent state, state and event, the candidate transitions of that configuration are exactly those declared: its deferral if the state defers the event, then the external rows whose source denotes it (plain, initial, exit, direct, or the enclosing sub state itself for each of its states), then the internal rows that apply to it; later rows take precedence over earlier ones. Each candidate carries the guard, action, target configuration and history flag of its own row, where targets resolve to the plain state, to the initial state of a sub state, or to the entry, direct or history target named.',
 ['programs','configurations'],'every machine description',
 'Unit tests check sizes of a few generated tables; that no row is lost, duplicated into another cell, or bound to the wrong source, target, guard or action is a statement about all cells of all tables.',
 [D+'fill_dispatch_table.h',D+'resolve_state.h',D+'flatten_transition_table.h',D+'flatten_internal_transition_table.h',D+'collect_states.h',D+'make_dispatch_tables.h'],['addDispatchTableEntry','addDispatchTableEntryOfSubMachineExits','fill_dispatch_table_with_deferred_events','resolveSrc','resolveDst','resolveSrcParent','resolveDstParent','flatten_internal_transition_table'])
p('C08','State queries and set agree with the configuration',
 'is and parent_is answer true exactly for the current state of the region asked about and the active parent state, and do not change the machine; distinct (parent state, state) pairs are never confused. After set, the region is in the state given, the active parent and the number of regions follow the first region, regions that become active start in their initial state and all other regions are unchanged; set for a region the machine does not have throws and changes nothing.',
 ['inputs','histories','programs'],'all configurations, regions and states of every machine',
 'Tests query only the state they expect, never the ones they do not, and set a state once.',
 [D+'sm.h',D+'idx.h',D+'index_map.h'],['sm::is','sm::parent_is','sm::set','calcStateIdx','calcParentStateIdx','getCombinedStateIdx'])
p('C09','Exit, transition and entry actions run once, in order, on the right objects',
 'Executing an external transition runs the exit action of the source (or of the sub state left through an exit point), then the action of the row, then the entry action of a target named as state or sub state, then the entry action of the (first) initial state of a sub state entered that way, each exactly once if declared; an internal transition runs only the action of its row. Guard and every action receive the event being processed by reference, the machine instances of the source and target state (the source twice for an internal transition), and all dependencies in declaration order.',
 ['programs','inputs'],'all combinations of declared exit, row, entry and initial entry actions, source and target kinds, event values and numbers of dependencies',
 'Tests check that some entry or exit action ran; order, multiplicity and identity of all arguments are not asserted.',
 [D+'resolve_state.h',D+'has_action.h',D+'dispatch_table.h'],['resolveEntryExitAction','resolveExitAction','resolveEntryAction','resolveInitialStateEntryAction','resolveAction','DispatchTableEntry::executeAction','DispatchTableEntry::executeGuard'])
p('C10','Guards, actions and handlers see exactly the injected dependencies',
 'Every guard, action and unexpected event handler is called with references to the very objects given to the constructor or, after set_dependency, only with the objects given to its last call. set_dependency changes nothing else: the machine keeps its configuration, history, deferred events and state data, and has the same candidate transitions in the same order as before.',
 ['histories','programs'],'any number of set_dependency calls in any configuration, any number of dependencies, every machine',
 'Tests replace a dependency once and look at one action; candidates left behind by earlier bindings only show when the guards of the new ones fail.',
 [D+'sm.h',D+'fill_dispatch_table.h',D+'dispatch_table.h'],['sm::sm','sm::set_dependency','fill_unexpected_event_handler_tables','make_transition'])
p('C11','Each machine owns one instance of each state, shared by all its transitions',
 'All guards, actions and handlers of one machine that refer to a state receive the same object for it for the lifetime of the machine, and different machines never share state objects. For a state that is not default constructible the object exists once a create_state transition ran: create_state stores what its factory returned for that event and source and nothing else, and reuse_state passes the stored object.',
 ['programs','histories'],'every machine, every pair of rows naming the same state, any sequence of create_state and reuse_state transitions',
 'Tests write state data in one action and read it in the next; sharing over all rows and event types and separation between machines are not sampled.',
 [D+'make_states_map.h',D+'traits.h',D+'create_state.h',D+'reuse_state.h',D+'fill_dispatch_table.h'],['make_states_map','unwrap_typeid_to_shared_ptr','CreateState::operator()','ReuseState::operator()'])
p('C12','Every front end notation denotes the transition it spells',
 'Each combination of source, event, guard, action and target written in the postfix, prefix or internal notation yields a transition with exactly that source, event and target, and with the very guard and action objects written (their values included); an omitted guard is always enabled, an omitted action does nothing and an omitted event means an anonymous transition.',
 ['programs','inputs'],'all notation forms, all guard and action values',
 'Tests spell each form once with stateless lambdas, so a guard or action value that is dropped, swapped or default constructed goes unnoticed.',
 [D+'state.h',D+'event.h','include/hsm/front/transition_dsl.h','include/hsm/front/transition_tuple.h',D+'transition.h'],['StateBase::operator+','StateBase::operator=','StateBase::operator<=','event_t::operator[]','event_t::operator/','TransitionSEGA::operator=','extended_transition','internal_extended_transition'])
p('C13','Event processing never accesses anything out of bounds',
 'Whatever the history of events, set and set_dependency calls, event processing and queries index every table, history and region within its bounds, never go through a null or dangling transition, and leave every active region in a (parent state, state) pair of the machine.',
 ['histories','inputs','programs'],'all histories of public calls, all guard outcomes, machines with any mixture of regions, history and sub states',
 'An out of bounds index needs a particular order of region changes and usually does not crash; tests contain no such sequence and run without bounds checks.',
 [D+'sm.h',D+'collect_initial_states.h',D+'fill_dispatch_table.h'],['sm::process_event_internal','sm::update_current_state','sm::update_current_regions','sm::init_current_state','sm::status'])
p('C14','An exception thrown by a guard, action or handler leaves a usable machine',
 'An exception thrown by a guard, action or handler reaches the caller of process_event unchanged and nothing is executed after it. If a guard threw, every region is as it was after the last executed transition; if an action threw, its region is already in the target configuration of that transition; deferred events not yet retried stay deferred, and the machine accepts further events.',
 ['fault_sequences','histories','inputs'],'every guard, action or handler call of every event throwing, in every configuration',
 'Tests throw from one handler in one state; the state of the machine after a throw at an arbitrary call is not examined.',
 [D+'sm.h',D+'variant_queue.h'],['sm::process_event','sm::process_event_internal','sm::process_anonymous_transitions','variant_queue::visit'])
p('C15','Transition and handler objects are owned exactly once',
 'Every transition and handler object created for a machine is destroyed exactly once, at the latest with the machine; transferring, swapping, resetting or releasing its owner never destroys an object that is still owned, never destroys one twice and never leaks one.',
 ['histories','inputs'],'all sequences of ownership operations on all pointer values, self assignment included',
 'Tests do not exercise the owner type at all and run without leak detection.',
 [D+'utils/dunique_ptr.h',D+'dispatch_table.h',D+'fill_dispatch_table.h'],['dunique_ptr::dunique_ptr','dunique_ptr::operator=','dunique_ptr::reset','dunique_ptr::release','dunique_ptr::swap','make_transition'])
p('C16','A chained action runs its parts once each in the order written',
 'The action built from any sequence of actions calls each of them exactly once, in the order written, with the same event, source, target and dependency objects it was called with itself, using the action values it was built from, and stops at the first that throws.',
 ['programs','inputs'],'any number of actions, any action values and arguments',
 'Tests chain two stateless actions and check the result of one of them.',
 [D+'chain_actions.h'],['chain_actions','chain'])
p('C17','Machines do not interfere with each other',
 'Processing an event, setting a state or replacing dependencies of one machine changes nothing of any other machine, and depends only on that machine, the event and the environment: nothing but the machine itself is written.',
 ['histories','inputs','programs'],'all public calls on all machines in all configurations',
 'Tests use one machine at a time, so hidden shared state would not be noticed.',
 [D+'sm.h',D+'fill_dispatch_table.h',D+'make_states_map.h'],['sm::process_event','sm::set','sm::set_dependency','sm::sm'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
