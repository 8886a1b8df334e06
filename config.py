"""What is proved for which property: harnesses, obligations, assumptions."""

RING = "verif::ring_harness::"
CELL = "wait::cell::verif::cell_harness::"
QUEUE = "wait::queue::verif::queue_harness::"
CHAN = "mpsc::verif::chan_harness::"
ASYNC = "mpsc::async_impl::verif::async_harness::"
BLOCK = "mpsc::blocking::verif::blocking_harness::"
SPIN = "util::mutex::spin_impl::verif::spin_harness::"
API = "verif::api_harness::"
HASH = "verif::hash_harness::"

# group: (feature, module path, loops must be shown to end, seconds per harness)
#
# Harnesses of the rely/guarantee kind (loops_end False) execute one arbitrary
# iteration of a retry loop from an arbitrary state allowed by the invariant, so
# the loop is cut after it (--no-unwinding-checks): this is the loop-invariant
# rule, not an unrolling bound.  The others run the loops to their end with
# unwinding assertions on.
HARNESSES = {}


def _h(group, feature, path, loops_end, names, flavours=(None,), **kw):
    for f in flavours:
        for n in names:
            short = n if f is None else f + "::" + n
            HARNESSES[group + "/" + short] = dict(id=path + short, feature=feature, loops_end=loops_end, **kw)


_h("ring", "g_ring", RING, False, ["rg_push_ref", "rg_pop_ref", "rg_ref_access", "rg_close", "rg_len"], rg=True)
_h("ring", "g_ring", RING, True, ["seq_push_ref", "seq_pop_ref", "seq_len", "seq_push_late", "seq_pop_late", "seq_len_late"])
_h("cell", "g_cell", CELL, False, ["rg_wait_with", "rg_cell_notify", "rg_cell_close", "seq_cell"], rg=True)
_h("queue", "g_queue", QUEUE, False,
   ["rg_start_wait", "rg_continue_wait", "rg_queue_notify", "rg_waiter_remove", "rg_queue_close"], rg=True)
_h("queue", "g_queue", QUEUE, True, ["seq_start_wait", "seq_queue_notify"])
_h("chan", "g_chan", CHAN, False,
   ["rg_poll_recv_ref", "con_try_send", "con_try_send_ref", "con_try_recv", "con_try_recv_ref", "con_close_rx"])
_h("async", "g_async", ASYNC, False, ["con_try_split"])
_h("async", "g_async", ASYNC, False,
   ["con_send_ref_future", "con_send_future", "con_send_future_waiting", "con_try_send_public",
    "con_try_receive_public", "con_poll_receive_public", "con_sender_count", "con_receiver_drop"],
   ("heap_async", "static_async"))
_h("blocking", "g_blocking", BLOCK, False, ["con_try_split"])
_h("blocking", "g_blocking", BLOCK, False,
   ["con_send_ref", "con_send_ref_timeout", "con_send", "con_send_timeout", "con_try_send_public",
    "con_try_receive_public", "con_receive", "con_receive_timeout", "con_receive_ref_timeout",
    "con_sender_count", "con_receiver_drop"],
   ("heap_blocking", "static_blocking"))
_h("spin", "g_spin", SPIN, False, ["rg_spin_lock"], rg=True)
_h("spin", "g_spin", SPIN, True, ["seq_spin_lock"])
_h("api", "g_api", API, True, ["con_push", "con_pop", "con_sizes", "con_new"], ("heap_queue", "static_queue"))
_h("api", "g_api", API, True,
   ["con_positions", "con_drop_queue", "con_drop_static_queue", "con_drop_static_async",
    "con_drop_static_blocking", "con_drop_async", "con_drop_blocking", "con_errors", "con_default_recycle",
    "con_capacity_vec", "con_capacity_string", "con_capacity_deque", "con_capacity_heap"])
_h("hash", "g_hash", HASH, True, ["con_capacity_map", "con_capacity_set"])
_h("api", "g_api", API, True, ["con_drop_slots"])
_h("api", "g_api", API, True, ["bnd_drop_slots"], bounded="capacity at most 3")
_h("api", "g_api", API, True,
   ["zero_queue", "zero_queue_recycle", "zero_static_queue", "zero_static_queue_recycle", "zero_async",
    "zero_async_recycle", "zero_blocking", "zero_blocking_recycle", "zero_static_async", "zero_static_blocking"],
   expect_panic=True)

LEMMA = "verif::lemma_harness::"
_h("lemma", "g_lemma", LEMMA, True, ["lem_ring_initial", "lem_ring_step", "lem_ring_steps"], ("ring_lemma",))
_h("lemma", "g_lemma", LEMMA, True, ["lem_cell_initial", "lem_cell_step", "lem_cell_steps"], ("cell_lemma",))
_h("lemma", "g_lemma", LEMMA, True, ["lem_queue_initial", "lem_queue_step", "lem_queue_steps"], ("queue_lemma",))
_h("lemma", "g_lemma", LEMMA, True, ["lem_spin_step", "lem_split_step", "lem_count_step"], ("word_lemma",))

# the properties that a loop of a seq_* harness without end breaks
LOOPS_OF = {"ring": ("C11", "ALL"), "queue": ("C09", "C10", "C11", "ALL"), "spin": ("C15", "C11", "ALL")}

# what costs most is started first
SLOW = {"seq_push_late": 120, "seq_pop_late": 90, "seq_push_ref": 82, "seq_pop_ref": 61, "con_send_timeout": 66, "rg_ref_access": 46, "rg_queue_close": 46,
        "con_send_ref_timeout": 43, "con_send_future_waiting": 41, "con_send_future": 39, "rg_push_ref": 39,
        "con_poll_receive_public": 37, "rg_waiter_remove": 33, "con_receive_timeout": 30,
        "lem_ring_step": 50, "con_receive_ref_timeout": 30, "con_receive": 28, "rg_pop_ref": 23, "con_try_send_public": 20}

RG_RING = ["ring/rg_push_ref", "ring/rg_pop_ref", "ring/rg_ref_access"]
Q2 = ["heap_queue", "static_queue"]


L_RING, L_CELL, L_QUEUE = ([h for h in HARNESSES if h.startswith("lemma/%s_lemma" % k)] for k in ("ring", "cell", "queue"))
L_SPIN, L_SPLIT, L_COUNT = (["lemma/word_lemma::lem_%s_step" % k] for k in ("spin", "split", "count"))


def _f(group, flavours, *names):
    return ["%s/%s::%s" % (group, f, n) for f in flavours for n in names]


def _a(*n):
    return _f("async", ["heap_async", "static_async"], *n)


def _b(*n):
    return _f("blocking", ["heap_blocking", "static_blocking"], *n)


def _q(*n):
    return _f("api", Q2, *n)


ZERO = [h for h in HARNESSES if "/zero_" in h]
CELLS = [h for h in HARNESSES if h.startswith("cell/")]
QUEUES = [h for h in HARNESSES if h.startswith("queue/")]
DROPS = [h for h in HARNESSES if "/con_drop" in h]

# scenario: depth in the quick and in the thorough tier
SCENARIOS = {
    "ring": (7, 8), "static_ring": (6, 8),
    "async": (5, 6), "static_async": (5, 6), "blocking": (5, 6), "static_blocking": (5, 6),
    "live": (0, 1), "misc": (0, 1), "recycling": (0, 1), "traits": (0, 1),
}
# schedule search: preemptions, seconds per program
SCHED_BOUNDS = {"quick": (2, 5), "thorough": (3, 90)}
_CH = ["async1", "async2", "sasync1", "blocking1", "blocking2", "sblocking1"]
_QU = ["heap1", "heap2", "static2"]


def _s(groups, *names):
    return ["%s_%s" % (g, n) for n in names for g in groups]


F_RING = ["Core::push_ref", "Core::pop_ref", "Core::idx_gen", "Core::next", "Drop for Ref"]
F_QUEUE = ["WaitQueue::start_wait", "WaitQueue::start_wait_slow", "Waiter::continue_wait / wait",
           "WaitQueue::notify", "WaitQueue::notify_slow", "Waiter::remove", "WaitQueue::close",
           "List::enqueue/dequeue/remove/is_empty"]
F_CELL = ["WaitCell::wait_with", "WaitCell::notify", "WaitCell::close_tx", "WaitCell::notify2"]
F_CHAN = ["ChannelCore::try_send", "try_send_ref", "try_recv", "try_recv_ref", "Drop for SendRefInner/NotifyRx",
          "Drop for RecvRefInner/NotifyTx"]
F_ASYNC = ["Sender/StaticSender::send, send_ref, try_send, try_send_ref (async)", "SendRefFuture::poll, PinnedDrop",
           "SendFuture::poll"]
F_BLOCK = ["blocking send_ref, send, send_ref_timeout, send_timeout, try_send*", "blocking recv_ref, recv, recv_ref_timeout, recv_timeout, try_recv*"]

PROPERTIES = {
    "C01": dict(
        title="FIFO, exactly-once delivery with values intact", level="proof",
        harnesses=L_RING + RG_RING + ["ring/rg_close", "chan/con_try_send", "chan/con_try_send_ref", "chan/con_try_recv", "chan/con_try_recv_ref",
                             "chan/rg_poll_recv_ref", "api/con_positions"] + _q("con_push", "con_pop", "con_new")
        + _a("con_send_ref_future", "con_send_future", "con_try_send_public", "con_try_receive_public", "con_poll_receive_public")
        + _b("con_send_ref", "con_send", "con_try_send_public", "con_try_receive_public", "con_receive"),
        thorough=_b("con_send_timeout", "con_send_ref_timeout", "con_receive_timeout", "con_receive_ref_timeout") + _a("con_send_future_waiting"),
        scenarios=["ring", "static_ring", "async", "static_async", "blocking", "static_blocking", "live", "misc"],
        sched=_s(_QU, "mpsc", "spmc", "refs") + _s(_CH, "all", "refs"),
        functions=F_RING + F_CHAN + F_ASYNC + F_BLOCK + ["ThingBuf/StaticThingBuf::push, pop, push_ref, pop_ref, push_with, pop_with"],
        note="Every claim is the next position, its slot is in the state of that position, and the value left in a slot by its push is what its pop obtains."),
    "C02": dict(
        title="Bounded capacity; Full, Empty and Closed are only reported when true", level="proof",
        harnesses=L_RING + ["ring/rg_push_ref", "ring/rg_pop_ref", "ring/rg_close", "ring/seq_push_ref", "ring/seq_pop_ref", "api/con_positions",
                   "chan/con_try_send", "chan/con_try_recv"] + _q("con_new", "con_pop", "con_push")
        + _a("con_try_receive_public") + _b("con_try_receive_public"),
        scenarios=["ring", "static_ring", "async", "static_async", "blocking", "static_blocking", "misc"],
        sched=_s(_QU, "mpsc", "spmc", "room", "has") + _s(_CH, "wake_rx", "drain"),
        functions=F_RING + ["Core::new / new_mut", "ChannelCore::try_send, try_recv", "try_recv*/pop* of each flavour"],
        note="Outcome of a push or pop is justified by a moment inside the call; uncontended outcomes are exact."),
    "C03": dict(
        title="Exclusive, in-bounds slot access with publication ordering", level="proof",
        harnesses=L_RING + RG_RING + ["ring/rg_close", "ring/rg_len", "api/con_positions", "chan/con_try_send_ref", "chan/con_try_recv_ref",
                             "chan/rg_poll_recv_ref"] + _q("con_push", "con_pop", "con_new"),
        scenarios=["ring", "static_ring", "live"],
        sched=_s(_QU, "mpsc", "spmc", "refs") + _s(_CH, "refs", "held"),
        functions=F_RING + ["Ref::with, with_mut, Deref, DerefMut", "Core::close", "Core::len", "SendRef/RecvRef wrappers"],
        note="Slot memory is touched only by the operation that claimed it after an acquire load of its state and before a release store."),
    "C04": dict(
        title="Elements are initialised before use and dropped exactly once", level="proof",
        harnesses=["ring/rg_push_ref", "ring/rg_pop_ref", "ring/rg_ref_access", "ring/rg_close", "api/bnd_drop_slots", "chan/con_try_recv"] + DROPS + _q("con_pop", "con_push"),
        scenarios=["ring", "static_ring", "async", "static_async", "blocking", "static_blocking", "misc", "live"],
        sched=_s(_QU, "mpsc", "spmc") + _s(_CH, "hang_up", "refs"),
        functions=F_RING + ["Core::drop_slots", "Drop of ThingBuf, StaticThingBuf, async and blocking Inner / StaticChannel"],
        note="First use constructs, later uses recycle, and each drop path hands exactly the storage to drop_slots, which drops an arbitrary slot's element exactly when there is one."),
    "C05": dict(
        title="len, is_empty, remaining and capacity are exact and consistent", level="proof",
        harnesses=["ring/rg_len", "ring/seq_len"] + _q("con_sizes", "con_new"),
        scenarios=["ring", "static_ring", "misc"],
        sched=_s(_QU, "len", "len_exact", "len_some", "mpsc"),
        functions=["Core::len", "Core::capacity", "ThingBuf/StaticThingBuf::len, is_empty, remaining, capacity"],
        note="The reported length was exact at a moment inside the call."),
    "C06": dict(
        title="Disconnection: close once the last peer is gone, then drain, then end", level="proof",
        harnesses=L_COUNT + ["ring/rg_close", "ring/rg_push_ref", "ring/rg_pop_ref", "ring/seq_push_ref", "ring/seq_pop_ref", "cell/rg_cell_close",
                   "cell/seq_cell", "cell/rg_wait_with", "queue/rg_queue_close", "queue/rg_start_wait", "queue/rg_continue_wait",
                   "chan/rg_poll_recv_ref", "chan/con_close_rx"]
        + _a("con_sender_count", "con_receiver_drop") + _b("con_sender_count", "con_receiver_drop"),
        scenarios=["async", "static_async", "blocking", "static_blocking", "live"],
        sched=_s(_CH, "hang_up", "clones", "wake_rx", "drain"),
        functions=["Core::close"] + F_RING + ["WaitCell::close_tx", "WaitQueue::close", "ChannelCore::close_rx", "Clone/Drop of every Sender", "Drop of every Receiver", "ChannelCore::poll_recv_ref"],
        note="The closed bit is set exactly by the last drop of a side, is never cleared, stops claims and is reported to the receiver only once drained."),
    "C07": dict(
        title="Failed sends return the value; error and closed predicates are truthful", level="proof",
        harnesses=["api/con_errors", "ring/rg_push_ref", "ring/rg_pop_ref", "ring/seq_push_ref", "ring/seq_pop_ref", "chan/con_try_send", "chan/con_try_recv"] + _q("con_push")
        + _a("con_try_send_public", "con_send_future", "con_sender_count") + _b("con_try_send_public", "con_send", "con_send_timeout", "con_sender_count"),
        scenarios=["ring", "static_ring", "async", "static_async", "blocking", "static_blocking", "misc"],
        sched=_s(_CH, "hang_up") + _s(_QU, "mpsc") + ["timeout"],
        functions=["errors: is_full, is_timeout, is_closed, into_inner, with_value", "Receiver::is_closed of every flavour"] + F_CHAN[:1] + F_ASYNC + F_BLOCK[:1],
        note="Every failing send path hands back the value it was given and has claimed nothing."),
    "C08": dict(
        title="A waiting receiver is never left asleep", level="proof",
        harnesses=L_CELL + CELLS + ["chan/rg_poll_recv_ref", "chan/con_try_send", "chan/con_try_send_ref"]
        + _a("con_poll_receive_public", "con_try_send_public", "con_sender_count", "con_send_ref_future")
        + _b("con_receive", "con_receive_timeout", "con_receive_ref_timeout", "con_sender_count", "con_try_send_public"),
        scenarios=["async", "static_async", "blocking", "static_blocking", "live"],
        sched=_s(_CH, "wake_rx", "clones", "all") + ["change_rx_waker", "recv_timeout"],
        functions=F_CELL + ["ChannelCore::poll_recv_ref"] + F_CHAN[:2] + F_BLOCK[1:],
        note="Pending only after registering and looking again; every completed send and the close reach the registered waker."),
    "C09": dict(
        title="A waiting sender is never left asleep; notifications are not lost", level="proof",
        harnesses=L_QUEUE + QUEUES + ["chan/con_try_recv", "chan/con_try_recv_ref", "chan/con_close_rx"]
        + _a("con_send_ref_future", "con_send_future_waiting", "con_try_receive_public", "con_receiver_drop")
        + _b("con_send_ref", "con_send_ref_timeout", "con_try_receive_public", "con_receiver_drop"),
        scenarios=["async", "static_async", "blocking", "static_blocking", "live"],
        sched=_s(_CH, "all", "hang_up", "held") + ["cancel", "cancel_middle", "change_waker", "timeout"],
        functions=F_QUEUE + ["SendRefFuture::poll / drop", "blocking send_ref, send_ref_timeout"] + F_CHAN[2:],
        note="Wait queue invariant under its lock; each freed slot notifies once; a sender that gives up passes its notification on."),
    "C10": dict(
        title="Abandoned waits leave nothing behind", level="proof",
        harnesses=L_QUEUE + QUEUES + _a("con_send_ref_future", "con_send_future", "con_send_future_waiting")
        + _b("con_send_ref", "con_send_ref_timeout", "con_send_timeout"),
        scenarios=["async", "static_async", "blocking", "static_blocking", "live"],
        sched=["cancel", "cancel_middle", "change_waker", "timeout"] + _s(_CH, "all", "hang_up"),
        functions=F_QUEUE + ["SendRefFuture::poll / drop", "SendFuture::poll", "blocking send_ref, send_ref_timeout, send_timeout"],
        note="Every end of a waiting send has removed its node; list links stay consistent."),
    "C11": dict(
        title="Non-waiting operations always return", level="proof",
        harnesses=["ring/seq_push_ref", "ring/seq_pop_ref", "ring/seq_len", "ring/seq_push_late", "ring/seq_pop_late", "ring/seq_len_late", "cell/seq_cell", "ring/rg_close", "queue/seq_queue_notify"]
        + _a("con_try_send_public", "con_try_receive_public") + _b("con_try_send_public", "con_try_receive_public"),
        scenarios=["ring", "static_ring", "async", "static_async", "blocking", "static_blocking", "live"],
        sched=_s(_QU, "mpsc", "refs", "len"),
        functions=F_RING + ["Core::len", "Core::close", "try_send*, try_recv* of each flavour"],
        note="Without interference each retry loop ends within its unwinding assertion from every state, also while references are held."),
    "C12": dict(
        title="Recycling policies do what they promise", level="proof",
        harnesses=["ring/rg_push_ref", "ring/rg_pop_ref", "api/con_default_recycle", "api/con_capacity_vec", "api/con_capacity_string",
                   "api/con_capacity_deque", "api/con_capacity_heap", "hash/con_capacity_map", "hash/con_capacity_set", "chan/con_try_recv"] + _q("con_pop") + _a("con_try_receive_public") + _b("con_try_receive_public"),
        scenarios=["ring", "static_ring", "async", "blocking", "recycling"],
        sched=_s(_QU, "refs"),
        functions=["Core::push_ref (new_element / recycle)", "recycling::take", "DefaultRecycle", "WithCapacity for Vec, String, VecDeque, BinaryHeap, HashMap, HashSet", "pop/try_recv of each flavour"],
        note="Capacity policies are proved on the real Vec, String, VecDeque and BinaryHeap (capacities up to 2^20) and, for HashMap and HashSet, against their documented contracts."),
    "C13": dict(
        title="Static channels and buffers: split once, valid capacity, right storage", level="proof",
        harnesses=L_SPLIT + ["async/con_try_split", "blocking/con_try_split"] + ZERO + _q("con_new", "con_sizes")
        + ["api/static_queue::con_push", "api/static_queue::con_pop", "api/con_drop_static_queue", "api/con_drop_static_async", "api/con_drop_static_blocking"]
        + [h for h in HARNESSES if "/static_async::" in h or "/static_blocking::" in h],
        scenarios=["static_ring", "static_async", "static_blocking", "misc", "live"],
        sched=["split_async", "split_blocking"] + _s(["static2"], "mpsc", "refs") + _s(["sasync1", "sblocking1"], "all", "hang_up", "clones", "wake_rx", "held"),
        functions=["StaticChannel::try_split / split (async, blocking)", "constructors of every flavour", "Slot::make_static_array, make_boxed_array", "every public function of the static flavours (same contracts as the heap ones)"],
        note="The split flag is taken by one compare-exchange; every constructor rejects capacity 0; the static flavours satisfy the very contracts of the heap ones."),
    "C14": dict(
        title="Timed operations respect their deadline and their cause", level="proof",
        harnesses=_b("con_send_ref", "con_send_ref_timeout", "con_send_timeout", "con_receive", "con_receive_timeout", "con_receive_ref_timeout"),
        scenarios=["blocking", "static_blocking", "live"],
        sched=["timeout", "recv_timeout"],
        functions=F_BLOCK,
        note="All clock readings and wakeup sequences at each park; the retry loop is covered by its invariant."),
    "C15": dict(
        title="The no_std lock gives mutual exclusion with release/acquire ordering", level="proof",
        harnesses=L_SPIN + ["spin/rg_spin_lock", "spin/seq_spin_lock"],
        scenarios=[],
        sched=["spin"],
        functions=["spin_impl::Mutex::new, lock", "MutexGuard Deref/DerefMut/Drop"],
        note="All interleavings of other lock users at each atomic step."),
    "C16": dict(
        title="Handles and references are only shareable across threads when the element is", level="other",
        harnesses=[],
        scenarios=["traits"],
        sched=[],
        functions=["unsafe impl Send/Sync for Ref, Slot, Waiter, List, WaitCell and every auto trait derived from them"],
        note="The contract is the where-clause of each Send/Sync impl; rustc's trait solver decides, on the crate as built for users, every handle for an element with each combination of Send and Sync (and policies without them)."),
}

# obligation code -> properties it speaks about (anything unlisted speaks about all)
OBLIGATIONS = {}


def _o(codes, *props):
    for c in codes.split():
        if ".." in c:
            a, b = c.split("..")
            for i in range(int(a[1:]), int(b[1:]) + 1):
                OBLIGATIONS["%s%02d" % (a[0], i)] = set(props)
        else:
            OBLIGATIONS[c] = set(props)


# the ring's protocol is what every statement about elements rests on
_o("G10 G13..G20", "C01", "C02", "C03", "C04"); _o("G10 G15 G18 G20", "C01", "C02", "C03", "C04", "C12")
_o("G11 G21..G23", "C03", "C01", "C04"); _o("G12", "C06", "C02", "C01")
_o("R10 R11", "C01", "C03"); _o("R12..R15", "C12", "C04"); _o("R16", "C04"); _o("R17", "C01", "C03", "C11")
_o("R18", "C01", "C02"); _o("R19", "C02"); _o("R20", "C02", "C06"); _o("R30..R32 R34", "C01", "C03")
_o("R33 R35", "C01", "C04", "C12"); _o("R36", "C01", "C02"); _o("R37", "C02"); _o("R38", "C02", "C06")
_o("R19 R37", "C02", "C07"); _o("R20 R21 R38 R39", "C02", "C06", "C07"); _o("R40 R41", "C01", "C03"); _o("R50..R52", "C06"); _o("R60 R61 S30", "C05")
_o("S10..S15 S20..S25", "C02", "C11", "C06"); _o("S11 S21", "C01", "C02", "C11"); _o("S12 S13 S15 S22 S23 S25", "C02", "C06", "C07", "C11")
_o("W00 W10..W16 W20..W24 W30..W34", "C08")
_o("W13 W24 W33 G30..G39", "C08", "C06")
_o("G40..G46", "C09", "C10", "C06"); _o("G28", "C08", "C06"); _o("G47..G50 G52..G57", "C10", "C09", "C06")
_o("Q00..Q02 Q10..Q17 Q20..Q24 Q30..Q36", "C09"); _o("Q40..Q42", "C10", "C09"); _o("Q50..Q55", "C06", "C09")
_o("Q13 Q17 Q24", "C09", "C06"); _o("Q10 Q16 Q22", "C09", "C10")
_o("G60..G65", "C06"); _o("G70", "C13"); _o("G80..G89 G95 G96", "C15")
_o("G90..G93", "C09"); _o("G94", "C10", "C09")
_o("V10", "C09"); _o("V11", "C08"); _o("V20 V21 V25 V26", "C08"); _o("V22", "C06", "C08"); _o("V23 V24", "C01", "C03")
_o("V30..V32 V50 V61 V63", "C01"); _o("V33", "C08"); _o("V34..V36", "C07"); _o("V34", "C07", "C01", "C02")
_o("V40 V41", "C01", "C03"); _o("V42", "C01", "C03", "C08"); _o("V51", "C12", "C04"); _o("V52", "C09", "C01")
_o("V53 V62", "C09"); _o("V54 V55", "C02", "C07"); _o("V60", "C03"); _o("V70..V72", "C06", "C09")
_o("V80..V83 V85", "C06"); _o("V84 V86", "C06", "C08"); _o("V88", "C07"); _o("V90..V94", "C13")
_o("P10 P12..P14 P30", "C10", "C09"); _o("P11 P31", "C09"); _o("P20..P22", "C09", "C10"); _o("P23", "C01", "C09")
_o("P24", "C02", "C06", "C07"); _o("P25", "C10", "C01"); _o("P40 P41", "C09"); _o("P42 P43", "C08"); _o("P44", "C11")
_o("T10", "C14", "C08", "C09"); _o("T11..T17", "C14")
_o("A10", "C01"); _o("A20..A24", "C05"); _o("A30..A32", "C01", "C02", "C13"); _o("A40..A43", "C01", "C02", "C03")
_o("L10..L18", "C01", "C02", "C03"); _o("L20..L27", "C08"); _o("L30..L39", "C09", "C10"); _o("L40..L43", "C15")
_o("L50..L52", "C13"); _o("L60..L62", "C06")
_o("D10 D11 D20..D22", "C04"); _o("E10..E12", "C07"); _o("Y10..Y13 Y20..Y24", "C12"); _o("Z10", "C13")

TRUSTED = [
    "Kani 0.68 / CBMC 6.11 and rustc: translation of the real code and the SAT verdicts",
    "the ghost shim kani/hooks/loom_inner.rs, ghost*.rs that replaces the crate's loom/std shim module under --cfg thingbuf_verif: it performs the same memory operations and records / checks them",
    "rely/guarantee composition: that a step keeping the guarantee keeps the invariant and is a step the other threads rely on, for any number of steps, is proved (group lemma); the induction over an execution's steps that this supports is the standard argument and is not machine checked",
    "Rust standard library, parking_lot, pin-project behave as documented",
]
ASSUMPTIONS = [
    "fewer than 2^62 pushes per buffer on 64-bit (no lap counter wrap-around)",
    "element references are not leaked with mem::forget, and a single consumer per channel (what the types enforce)",
    "memory orderings are checked as per-access acquire/release obligations, not by a weak-memory semantics",
]
