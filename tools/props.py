TESTS = "The existing tests run one schedule of fixed values per protocol, on whatever interleaving the machine happens to produce"

prop("C01", "Binary sessions deliver every payload unchanged and in protocol order",
     "On a pair of dual binary endpoints, each receive returns exactly the value the peer passed to the matching send, in the order the protocol prescribes, and nothing else. Neither endpoint fails while the peer is alive, and whenever the protocol is not finished at least one endpoint can proceed.",
     ["inputs", "schedules"], "every payload value and every interleaving of the two endpoints' calls, over protocols mixing send and receive in both directions and payload types",
     TESTS + "; no test varies the values or the order in which the two sides act.",
     ["src/binary/send.rs", "src/binary/recv.rs", "src/binary/struct_trait"],
     [("fresh one-shot channel per step, continuation travels with the payload", "src/binary/send.rs, src/binary/struct_trait/{send,recv}.rs"), ("duals", "src/binary/struct_trait/session.rs")],
     "Both endpoints of a 3-step protocol (u32 ->, u64 <-, (u8,bool) ->) perform their calls in an arbitrary interleaving (symbolic choice at each step among the endpoints whose next call does not wait); payloads are symbolic. Asserted: each value received is the one sent; no call fails; some endpoint can always proceed; nothing is left over.",
     "3 messages, both directions, payload types u32, u64, (u8,bool); all payload values; all interleavings of the calls")

prop("C02", "A vanished peer is always noticed, never waited for or mistaken for data",
     "If the peer's endpoint is dropped at any point of a binary session, the survivor's next receive returns an error instead of waiting for ever, and messages sent before the disappearance are still delivered unchanged. Sending to a vanished peer never crashes the plain send and is reported as an error by the checked send. An endpoint that is discarded makes the disappearance visible to the peers of the sessions it carried.",
     ["crash_points", "schedules", "inputs"], "every point (between any two calls, or while the survivor waits) at which the peer may vanish, every interleaving up to it, every payload",
     TESTS + "; a handful of tests drop an endpoint at one fixed place.",
     ["src/binary/recv.rs", "src/binary/send.rs", "src/binary/cancel.rs", "src/binary/struct_trait"],
     [("drop disconnects the one-shot channel", "src/binary/struct_trait"), ("receive returns RecvError", "src/binary/recv.rs"), ("cancel", "src/binary/cancel.rs")],
     "The peer's sessions are dropped (or cancelled) at an arbitrary point of an arbitrary interleaving, including while the survivor is blocked; the survivor continues. Asserted: it never waits for a vanished peer, receives only values that were sent, gets every value sent before the disappearance, errors only when the peer is gone; the checked send reports; dropping a message drops the session it carries.",
     "4-step protocol with a peer that sends twice in a row; single crash at any point; all payload values")

prop("C03", "Closing a session succeeds on both ends exactly when both ends close",
     "Closing an endpoint completes successfully if the peer closes too, in either order and without either side having to wait for ever. It returns an error if the peer has vanished instead, and it never succeeds against a peer that did not close.",
     ["schedules", "crash_points"], "both orders of arrival; a peer that closes, vanishes, cancels, or vanishes while the other waits",
     TESTS + "; the tests only close both ends in the order the scheduler picks.",
     ["src/binary/close.rs", "src/binary/struct_trait/end.rs"],
     [("each end sends Stop then receives one signal", "src/binary/close.rs"), ("capacity-1 signal channels", "src/binary/struct_trait/end.rs")],
     "One endpoint closes while the peer (before, during or after) closes, is dropped, is cancelled, or sends a signal and vanishes. Asserted: success iff the peer closes; never stuck when the peer closes or vanishes.",
     "one pair of endpoints, all orders, five peer behaviours")

prop("C04", "In a binary choice both sides always follow the branch that was selected",
     "When one endpoint selects a branch of a binary choice, the offering endpoint runs the handler of that branch and no other, and both continue on a connected pair of sessions of that branch. If the chooser vanishes before choosing, the offer returns an error and runs no branch.",
     ["inputs", "schedules", "crash_points"], "both branches of a two-way choice and each branch of an n-ary choice, all payloads of the branches, choice before or while the other side waits, chooser gone",
     TESTS + "; each test fixes the branch in the program text or samples one.",
     ["src/binary/choose.rs", "src/binary/offer.rs", "src/binary/macros.rs"],
     [("choose_left/right create a fresh dual pair and send Either", "src/binary/choose.rs"), ("offer_either dispatches on it", "src/binary/offer.rs"), ("choose!/offer! on enums", "src/binary/macros.rs")],
     "The branch is symbolic, the choice happens before or while the offering side waits; the branches exchange symbolic payloads in both directions. Asserted: handler run = branch chosen, payloads intact, error when the chooser is gone.",
     "2-way choice, 3-way enum choice; branches of at most 2 messages; all payload values")

prop("C05", "Selecting among receivers takes one ready message and leaves the rest intact",
     "Selection over a list of receiving endpoints consumes exactly one of them: one whose message is waiting, returning that very message, or one whose sender has vanished, returning an error. All other endpoints remain in the list with their pending messages; if none is ready it waits for the first to become ready, and an empty list is an error.",
     ["inputs", "schedules"], "every combination of up to three receivers being ready, vanished or silent, every choice among the ready ones, every payload",
     "The tests check the multiset of received values for runs of many sessions that are all sending; vanished or silent senders and the remaining list are not examined.",
     ["src/binary/select.rs"],
     [("crossbeam Select over the channels, swap_remove of the ready one", "src/binary/select.rs")],
     "1 to 3 receivers, each with a message waiting, a vanished sender or nothing; if nothing is ready, one arbitrary sender acts while the selection waits; the ready operation picked is arbitrary. Asserted on the result and on the remaining list.",
     "lists of 0..3 receivers, in place and by value; all payloads; all readiness combinations")

prop("C06", "A forked participant runs once, wired to its creator, and its failure surfaces",
     "Forking a participant runs its body exactly once on the endpoint dual to the one returned to the creator, whenever the new thread is scheduled. Joining it reports success exactly when the body succeeded; a body that returns an error or panics is never joined as a success.",
     ["schedules", "inputs"], "every scheduling of the new thread (at once, while the creator waits, or at the join), every outcome of the body",
     TESTS + "; failure of the forked body is covered for a few fixed bodies.",
     ["src/binary/fork.rs"],
     [("thread spawned on one end, other end returned", "src/binary/fork.rs"), ("Err(e) => panic! in the thread body", "src/binary/fork.rs")],
     "The thread body is executed at an arbitrary scheduling point; it exchanges symbolic payloads with the creator or fails. Asserted: run-once, duality of the two ends, join result.",
     "one forked thread, two messages, all payloads, three scheduling points")

W = "windows [-,5], [-,5), [2,-), (2,-), [2,5], [2,5), (2,5], (2,5), unconstrained, [3,3], [0,1]; with reset of the window's clock, of another clock, or none; all instants below 1024 s with ns resolution; two clocks; time may pass before every reading"
TF = ["src/binary_atmp/send.rs", "src/binary_atmp/recv.rs", "src/binary_atmp/struct_trait"]

prop("C07", "A timed operation never takes effect outside its time window",
     "A timed send or receive that is performed entirely before or entirely after its clock window, as declared by bounds and their inclusion, never succeeds. A timed operation that is refused (error or panic) transmits nothing to the peer, and one that succeeds transmits the given payload.",
     ["inputs", "schedules"], "every elapsed time of the clock (sub-second included), every kind of window, time passing arbitrarily between the steps of the operation",
     "The timed tests sleep for one fixed duration per window and run on the wall clock, so they see one instant far inside or far outside.",
     TF, [("window tests on elapsed whole seconds", "src/binary_atmp/{send,recv}.rs"), ("bounded wait", "send_timeout/recv_timeout in the same files")],
     "The clock is a symbolic variable: arbitrary start instants, arbitrary non-decreasing readings. send, send_without_reset and recv run once per kind of window. Asserted: success implies the call overlaps the window at both ends; nothing was put on the channel when the call panics or errs; payload intact.",
     W, dead_ok=["from_in", "from_ex"])

prop("C08", "A timed operation inside its window, with a live peer, always succeeds",
     "A timed send or receive performed while its clock is inside the declared window (at the whole-second resolution of the library) succeeds when the peer is alive and, for a receive, the message is there. This holds for windows bounded on both sides, on one side only, and for unconstrained ones.",
     ["inputs", "schedules"], "every elapsed time clearly inside the window, every kind of window",
     "The timed tests sleep for one fixed duration per window and run on the wall clock.",
     TF, [("window tests on elapsed whole seconds", "src/binary_atmp/{send,recv}.rs")],
     "As C07, with the clock readings assumed to be inside the window (strict lower bounds from the next whole second). Asserted: the call neither panics nor errs, and the payload arrives.",
     W)

prop("C09", "A timed operation restarts exactly the clock it names, when it completes",
     "After a successful timed operation the clock named for reset has been set to an instant between the operation's completion and its return, and every other clock keeps running unchanged; an operation without reset changes no clock. No clock appears or disappears.",
     ["inputs", "schedules"], "every kind of window, reset of the window's own clock, of another clock or none, arbitrary time before and during the operation",
     "No test reads the clocks after a single operation; timed tests only observe that a later, generously timed, operation still works.",
     TF, [("*clock_to_reset = Instant::now() after the transfer", "src/binary_atmp/{send,recv}.rs")],
     "As C07; after a successful call both clocks are compared with their previous values and with the instants at which the message arrived and the call returned.",
     W, dead_ok=["from_in", "from_ex"])

prop("C10", "A timed receive never waits past its window and never gives up early",
     "A timed receive with an upper bound waits no longer than the end of its window, returns the message if it arrives in time, and otherwise gives up only after having waited; it errs when the peer vanishes. An operation on a clock that does not exist is refused without transmitting anything, and a timed send to a vanished peer is never reported as a success.",
     ["inputs", "schedules", "crash_points"], "every instant at which the message arrives or the peer vanishes, every kind of window and clock reading, unknown clocks",
     "The tests use messages that are sent long before or never, with one fixed delay.",
     TF, [("recv_timeout(end - elapsed)", "src/binary_atmp/recv.rs"), ("missing clock => panic", "src/binary_atmp/{send,recv}.rs")],
     "While the receive waits, the message arrives, the sender vanishes, or nothing happens, at an arbitrary instant. Asserted: entry + waiting limit <= end of the window; an arrival within the limit is returned; no giving up without waiting; unknown clock and vanished peer are refused.",
     W, dead_ok=["from_in", "from_ex", "always"])

prop("C11", "Three-party messages reach exactly the addressed participant, in order",
     "In a three-party session, a message sent from one role to another is received by that role and by no other, unchanged and in the order of the protocol, for each of the six ordered pairs of roles, with the functions and with the methods. While all participants are alive no call fails and some participant can always proceed.",
     ["inputs", "schedules"], "every payload value and every interleaving of the three participants' calls, in a protocol where all six directions carry the same payload type",
     TESTS + "; payload types usually differ between pairs of roles, so that a misrouted value would not even compile there.",
     ["src/functionmpst/send.rs", "src/functionmpst/recv.rs", "src/meshedchannels", "mpst_seq_proc/src/functionmpst"],
     [("send/recv on the session that belongs to the role on top of the stack", "src/meshedchannels/impl_{a,b,c}.rs"), ("generated functions", "mpst_seq_proc/src/functionmpst/{send,recv}_aux_simple.rs")],
     "The three participants of a six-message protocol (one per direction) act in an arbitrary interleaving; payloads are symbolic. Asserted: each receive returns the payload of the matching send; no call fails; someone can always go on.",
     "3 participants, 6 messages, u32 payloads; all interleavings; functions and methods")

prop("C12", "A three-party choice takes every participant into the same chosen branch",
     "When one of three participants makes a binary choice, both others enter exactly the branch it selected, and afterwards all three continue the protocol of that branch on sessions that connect them pairwise. A chooser that vanishes before choosing makes the offers of the others fail; they never enter a branch.",
     ["inputs", "schedules", "crash_points"], "each of the three roles as the chooser, both branches, functions and methods, every interleaving of the calls, all payloads exchanged in the branches",
     TESTS + "; in the branches, at most one value is exchanged between two of the three.",
     ["src/functionmpst/choose.rs", "src/functionmpst/offer.rs", "src/meshedchannels"],
     [("three fresh dual pairs, new stacks, Either sent to both others", "src/functionmpst/choose.rs, src/meshedchannels/impl_{a,b,c}.rs"), ("offer dispatches", "src/functionmpst/offer.rs")],
     "Chooser, branch and form (function, method) are one harness each; within it, the choice and the three messages of the branch (around the ring, in opposite directions in the two branches) are interleaved arbitrarily with symbolic payloads. Asserted: branch entered = branch chosen; payloads arrive between all pairs; no call fails; someone can always go on. Separately, each offer with a vanished chooser errs without running a branch.",
     "3 participants, one binary choice, 3 messages per branch; all interleavings of the API calls")

prop("C13", "A forked multiparty session connects every pair of its participants",
     "Forking a session with one function per role runs each participant exactly once, on channels that connect every pair of roles: a value sent to a role arrives at that role, unchanged, and at no other. Joining returns success only for a participant that returned success. A participant that is slow is waited for; slowness is never an error. This holds for three to five roles and for every kind of generated session.",
     ["inputs", "schedules"], "every payload value and every order in which the participants run (three roles), covering orders for four and five; generated basic, recursive, cancel and rec_and_cancel sessions",
     TESTS + "; the schedule is whatever the threads happen to get, and peers are never slower than a few milliseconds.",
     ["mpst_seq_proc/src", "src/functionmpst/fork.rs", "src/macros_multiple"],
     [("session i of role j is dual to session j of role i (matrices)", "mpst_seq_proc/src/common_functions/maths.rs"), ("fork: threads and join handles", "mpst_seq_proc/src/common_functions/expand/fork.rs, src/functionmpst/fork.rs")],
     "Sessions made by the generators are forked through the modelled threads; every participant sends a distinct symbolic value around (all pairs for three roles) and the receivers assert value and sender. A failing participant's handle is never Ok. A peer that answers arbitrarily late (the waits with a limit may run out) is not an error.",
     "3, 4 and 5 roles; symbolic u32 payloads; all orders for 3 roles, covering orders beyond; one slow peer")

prop("C15", "A multiparty session closes for everybody or, if anyone vanished, for nobody",
     "When every participant of a session closes, every close succeeds, in whatever order they arrive. If some participant has vanished instead, every other participant's close returns an error; no participant waits for ever. This holds for three participants and for sessions generated for more, timed ones included.",
     ["schedules", "crash_points"], "every order of arrival of three participants (a covering set of orders for four and five), every single vanished participant, gone before or while the others wait",
     TESTS + "; no test has a participant vanish at the time of closing a session of more than three.",
     ["src/functionmpst/close.rs", "src/meshedchannels", "mpst_seq_proc/src/common_functions/expand/close.rs", "mpst_seq_proc/src/macros_multiple/multiple/close"],
     [("Stop to every peer, then one signal from every peer", "src/functionmpst/close.rs, mpst_seq_proc/src/common_functions/expand/close.rs"), ("capacity-1 signal channels", "src/binary/struct_trait/end.rs")],
     "Each participant closes or is dropped; participants start in each order, a participant that waits lets the next one run. Asserted: all succeed iff all close, otherwise everybody who closes gets an error; nobody is stuck.",
     "3 participants (function, method, generated, macro): all orders; 4 and 5 participants (generated): 4 and 5 orders in which every pair appears in both orders; at most one vanished participant", dead_ok=[])

prop("C14", "A labelled choice sends every participant into the chosen branch and rejoins",
     "When a participant of a session of two to four roles makes a labelled choice (choose_mpst_*_to_all!, offer_mpst!, or the generated choose_left and choose_right), every other participant enters exactly the branch with that label, and afterwards every pair of participants is connected by fresh sessions of that branch. This still holds when the protocol recurses and a further choice is made on the new sessions. A participant waits for a slow chooser for as long as it takes; if the chooser vanishes instead of choosing, the offer fails and no branch is entered.",
     ["inputs", "schedules", "crash_points"], "each role as the chooser, sequences of two choices, every interleaving for three roles, all payloads, a late or vanished chooser",
     TESTS + "; the labelled tests exchange unit values, which cannot be confused, and the generated choices of later roles are barely used.",
     ["mpst_seq_proc/src/baking", "mpst_seq_proc/src/common_functions", "src/macros_multiple/offer.rs"],
     [("fresh sessions for every pair, one enum value per offering role", "mpst_seq_proc/src/common_functions/expand/choose_mpst_create_multi_to_all.rs, mpst_seq_proc/src/baking"), ("index maths of the pairs", "mpst_seq_proc/src/common_functions/maths.rs")],
     "Sessions generated for three (recursive, rec_and_cancel) and four roles; the chooser goes once around the loop and then leaves it, symbolic payloads travel between all pairs in the loop branch. One of the two rounds is interleaved arbitrarily, the other and the four-role cases run in a fixed order. Asserted: branch entered = label chosen, payloads, no failure, someone can go on; late and vanished choosers separately.",
     "3 roles: each chooser, all interleavings of one of two rounds; 4 roles: each chooser, one order; labels Loop and Done; u32 payloads")

prop("C16", "A cancellation reaches every participant; a broadcaster never waits in vain",
     "With a broadcasting role (broadcast_cancel!), the broadcaster answers Stop to every participant that closes and ends well if and only if all of them close. If any participant sends Cancel, or vanishes without closing, the broadcaster stops waiting, tells every other participant Cancel and fails. A participant that has been told so sends nothing more (create_send_check_cancel!) and its close does not succeed (close_mpst_check_cancel!); otherwise its sends are delivered unchanged. This also holds across a choice made with choose_mpst_multi_cancel_to_all! and offer_cancel_mpst!, which take everybody into the chosen branch.",
     ["schedules", "crash_points", "inputs"], "which participant closes, cancels or vanishes, in which order and at which poll of the broadcaster; both branches of a choice; all payloads",
     "The tests cancel at one place in the protocol and accept whichever thread notices first.",
     ["mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs", "mpst_seq_proc/src/macros_multiple/multiple/send", "mpst_seq_proc/src/macros_multiple/multiple/choose", "mpst_seq_proc/src/macros_multiple/multiple/close", "src/macros_multiple/offer.rs"],
     [("polling loop over all sessions", "mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs"), ("try_recv before a send", "mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs"), ("Signal::Offer replaces the session to the broadcaster", "mpst_seq_proc/src/macros_multiple/multiple/choose/choose_mpst_multi_cancel_to_all.rs, src/macros_multiple/offer.rs")],
     "The real expansion of broadcast_cancel! runs against two or three peers of which all close or one cancels or vanishes, acting in every order, before the first poll or one per failing poll. The other operations run against every state of the broadcaster's channel, chained (cancel, broadcast, next call of a third participant), and in a four-role session with a choice where one participant cancels or vanishes after it.",
     "3 and 4 participants; one cancelling or vanished participant; all orders of the peers; in the choice, two orders per branch; u32 payloads")

prop("C17", "When a participant vanishes mid-protocol nobody waits for ever",
     "If one participant of a three-party session vanishes at any point of a protocol, every other participant either completes its protocol or gets an error (the checked sends of cancellable sessions may refuse by panicking) from one of its operations and, by giving up, passes the disappearance on: nobody waits for ever, and whatever is received is what was sent. If nobody vanishes, nothing fails.",
     ["crash_points", "schedules", "inputs"], "which participant vanishes and after which of its calls, every interleaving, all payloads; functions, methods, cancel and rec_and_cancel sessions",
     TESTS + "; cancellation tests drop a session at one fixed place.",
     ["src/functionmpst", "src/meshedchannels", "mpst_seq_proc/src/baking", "src/binary"],
     [("failing operations drop the whole session", "src/functionmpst/recv.rs, src/meshedchannels/impl_*.rs, mpst_seq_proc/src/baking"), ("checked send", "src/binary/send.rs")],
     "A five-message protocol around the ring and back; at every step an arbitrary participant goes on, or the doomed one vanishes; a participant whose call fails gives up, dropping what the call left. Asserted: someone can go on until all have finished or given up; values intact; no failure without a disappearance.",
     "3 participants, 5 messages, one vanishing participant at any point; all interleavings of the API calls")

prop("C18", "Protocols that share a participant stay separate, and each stays whole",
     "When several protocols are run together and one participant takes part in two of them, forking starts one thread per participant, runs each exactly once, and hands the shared participant one session of each protocol. Every participant is connected to the other participants of its own protocol and to nobody else; joining succeeds only for a participant that succeeded. A participant relaying between the protocols passes values on unchanged; if anybody vanishes, nobody in either protocol waits for ever. Running a whole session on one thread connects all its participants, and closing them together succeeds exactly if none has lost its peer.",
     ["inputs", "schedules", "crash_points"], "every payload, every interleaving of four participants of two protocols, every participant that vanishes at any point, every position of the shared participant that is listed",
     TESTS + "; the interleaved tests have one position of the shared participant, equal values, and no failure.",
     ["src/interleaved", "mpst_seq_proc/src/interleaved", "mpst_seq_proc/src/baking/baking_interleaved_with_enum_and_cancel.rs", "mpst_seq_proc/src/baking_atmp/baking_atmp_interleaved_with_enum_and_cancel.rs"],
     [("matrices of the pairs, one per protocol; the shared thread takes two", "mpst_seq_proc/src/baking/baking_interleaved_with_enum_and_cancel.rs"), ("fork_mpst_solo, close_mpst_interleaved", "src/interleaved/{fork,close}.rs, mpst_seq_proc/src/interleaved"), ("offer_mpst_interleaved!", "src/interleaved/offer.rs")],
     "generate!(\"interleaved\"/\"atmp_interleaved\") for a three-party and a two-party protocol, shared participant at nine positions; the sessions handed out by the real fork are joined pair by pair with symbolic payloads (timed: signals). A relaying participant's and its peers' calls are interleaved arbitrarily, with at most one vanishing at any point. fork_mpst_solo and fork_mpst_multi_solo! with a failing or succeeding body; both forms of close, with and without a lost peer; offers of two participants at once, with the right and the wrong branch taken for granted.",
     "two protocols of 3 and 2 participants, the shared one at 6 of 12 positions (untimed) and 3 of 12 (timed); 4 and 3 participants on one thread; 4 relayed messages; one vanishing participant")

prop("C20", "In a timed multiparty session every operation and choice keeps its window",
     "In a session generated with \"atmp\", a timed message from any role to any other reaches that role only, unchanged; it succeeds for both inside their windows and is refused, by an error or a panic and with nothing transmitted, outside. A choice of any participant inside its window reaches every other participant, whatever windows and resets the individual messages have, and takes all into the chosen branch, pairwise connected; outside its window nobody is told. After an operation or a choice exactly the named clock has been restarted, and only once the operation is complete. Forking gives each participant its own, empty clocks.",
     ["inputs", "schedules"], "each ordered pair of roles, each role as the chooser, binary and labelled choices, every clock reading inside or outside the window, with and without reset, every payload",
     "The timed multiparty tests run on the wall clock with second-wide margins, for a few pairs of roles and mostly one chooser.",
     ["mpst_seq_proc/src/baking_atmp/baking_atmp_with_enum_and_cancel.rs", "mpst_seq_proc/src/choose_atmp_mpst_multi_to_all.rs", "src/binary_atmp"],
     [("methods on the session that belongs to the role on top of the stack", "mpst_seq_proc/src/baking_atmp/baking_atmp_with_enum_and_cancel.rs"), ("choose_left/right, choose_mpst_*_to_all", "same file and mpst_seq_proc/src/common_functions/expand/choose_*"), ("clock reset", "src/binary_atmp/{send,recv}.rs")],
     "For each ordered pair: the send, then the receive, at symbolic instants assumed inside or outside a window; for each chooser: choose_left, choose_right and a labelled choice, with and without reset, inside and outside; for each pair: an offer of both kinds. Asserted: success inside, refusal and silence outside; payload, addressee and stack; the sessions of the branch are pairwise connected; which clocks changed and to when. Fork with no or one failing participant.",
     "3 participants; windows [2,5] and resets of the same clock or none; instants below 1024 s with ns resolution; one choice; no waiting chooser or receiver (C10 does that)")
