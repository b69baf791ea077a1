# Units of each property: one harness binary each.
V4 = ["-DBOOST_THREAD_VERSION=4"]
V2 = []
def U(name, src=None, **k):
    d = dict(name=name, src=src or [name + ".cpp"], quick=30000, thorough=600000); d.update(k); d["quick"] = d["quick"] * (2 if d["name"][:3] not in ("c07", "c18", "c20", "c28", "c29", "c34") else 1); d["thorough"] = max(d["thorough"], 2 * d["quick"]); return d
PROPS = {
 "C01": dict(units=[U("c01", scns="(?!counting).*")], require=["acquired", "refused"]),
 "C02": dict(units=[U("c02", ["c01.cpp"], scns="counting.*|.*rec.*")], require=["acquired", "recursive_levels"]),
}
UPC = ["-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"]
PROPS.update({
 "C04": dict(units=[U("rw1", ["rw.cpp"], defs=["-DRWV=1"] + UPC)], require=["got_exclusive", "got_shared", "got_upgrade", "converted_up", "converted_down", "refused"]),
 "C05": dict(units=[U("rw1", ["rw.cpp"], defs=["-DRWV=1"] + UPC)], require=["got_exclusive", "got_shared", "got_upgrade", "converted_up", "refused"]),
 "C06": dict(units=[U("rw2", ["rw.cpp"], defs=["-DRWV=2", "-DBOOST_THREAD_V2_SHARED_MUTEX"] + UPC), U("rw3", ["rw.cpp"], defs=["-DRWV=3", "-DBOOST_THREAD_V2_SHARED_MUTEX"] + UPC)], require=["got_exclusive", "got_shared", "got_upgrade", "converted_up", "refused"]),
})
V2SM = ["-DBOOST_THREAD_V2_SHARED_MUTEX"]
PROPS["C03"] = dict(units=[U("c03"), U("c03v2", ["c03.cpp"], defs=["-DV2M"] + V2SM, scns="(?!t_recursive_owner).*")], require=["timed_attempts", "timed_acquired", "timed_refused", "clock_steps"])
NOINT = ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"]
PROPS["C07"] = dict(units=[U("c07")], require=["waits", "notifications", "ended_by_notification", "ended_by_timeout", "ended_by_interruption", "ended_by_exception"])
PROPS["C08"] = dict(units=[U("c08")], require=["timed_waits", "reported_timeout", "reported_true", "clock_steps"])
PROPS["C09"] = dict(units=[U("c09")], require=["all_acquired", "try_refused", "lockable_threw"])
PROPS["C10"] = dict(units=[U("c10", defs=UPC), U("c10v4", ["c10.cpp"], defs=UPC + V4), U("c10p", quick=5000, thorough=50000)], require=["operations_checked", "misuse_refused", "mutex_threw", "conversions", "conversions_refused"])
VOL = ["--param", "tsan-distinguish-volatile=1", "-DBOOST_THREAD_DONT_USE_ATOMIC"]
PROPS["C11"] = dict(units=[U("c11"), U("c11v4", ["c11.cpp"], defs=V4 + ["-DBOOST_THREAD_USES_DATETIME"]), U("c11fast", ["c11.cpp"], defs=VOL, libdefs=VOL)], require=["invocations", "threw", "returned"])
V4DT = V4 + ["-DBOOST_THREAD_USES_DATETIME"]
PROPS["C12"] = dict(units=[U("c12"), U("c12v4", ["c12.cpp"], defs=V4DT + ["-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED"])], require=["functions_run", "joins", "timed_joins", "timed_join_success", "detached", "creation_failures", "allocation_failures", "interrupted_joins"])
PROPS["C13"] = dict(units=[U("c13"), U("c13v4", ["c13.cpp"], defs=V4DT), U("c13v2", ["c13.cpp"], defs=["-DV2M"] + V2SM, scns=".*_locks")], require=["interruptions_delivered", "interrupts", "delivered_after_enable", "linearizability_checks"])
PROPS["C14"] = dict(units=[U("c14")], require=["values_set", "cleanups", "set_in_cleanup", "allocation_failures"])
PROPS["C15"] = dict(units=[U("c15"), U("c15v4", ["c15.cpp"], defs=V4DT)], require=["exit_functions_run", "registered_while_exiting", "woken_at_exit", "results_at_exit", "second_refused", "registered_by_cleanup"])
PROPS["C16"] = dict(units=[U("c16"), U("c16v4", ["c16.cpp"], defs=V4, scns="groups|changing|zero_count", quick=10000)], require=["completions", "leaders", "followers", "interrupted", "refused_zero"])
PROPS["C17"] = dict(units=[U("c17")], require=["count_downs", "waits", "timed_waits", "timeouts", "completions", "function_uses", "interrupted", "linearizability_checks"])
PROPS["C18"] = dict(units=[U("c18"), U("c18v4", ["c18.cpp"], defs=V4DT), U("c18v4d", ["c18.cpp"], defs=V4DT + ["-DBOOST_THREAD_DONT_PROVIDE_PROMISE_LAZY"], scns="race.*|unique.*|errors|interrupted", quick=8000)], require=["set", "set_at_exit", "second_refused", "retrieved", "broken", "timed_waits", "timeouts", "errors_checked", "allocation_failures", "failed_settings", "callbacks", "interrupted"])
EX = ["-DBOOST_THREAD_PROVIDES_EXECUTORS"]
PROPS["C19"] = dict(units=[U("c19"), U("c19v4", ["c19.cpp"], defs=V4DT + EX)], require=["functions_run", "results", "exceptions", "second_refused", "broken", "resets", "deferred_run", "reported_deferred", "never_run", "executor_async", "results_at_exit", "creation_failures", "allocation_failures", "callbacks", "errors_checked"])
TP = ["-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED"]
PROPS["C20"] = dict(units=[U("c20", defs=V4DT + EX + TP)], require=["continuations_run", "results", "chains", "dropped_chains", "fans", "nested", "executor_sources", "unwrapped", "fallbacks", "executor_closed", "creation_failures", "interrupted", "abandoned"])
PROPS["C21"] = dict(units=[U("c21", defs=V4DT + EX + TP), U("c21v2", ["c21.cpp"], defs=[], quick=10000)], require=["any_waits", "all_waits", "results", "interrupted", "callbacks", "callbacks_threw", "allocation_failures", "when_all", "when_any", "deferred_run", "dropped", "degenerate", "creation_failures"])
PROPS["C22"] = dict(units=[U("c22"), U("c22v4", ["c22.cpp"], defs=V4DT, quick=10000)], require=["pushed", "pulled", "push_closed", "pull_closed", "found_empty", "found_busy", "element_threw", "interrupted", "allocation_failures", "linearizability_checks", "histories", "underlying"])
PROPS["C23"] = dict(units=[U("c23"), U("c23v4", ["c23.cpp"], defs=V4DT, quick=8000)], require=["pushed", "pulled", "push_closed", "pull_closed", "found_empty", "found_full", "found_busy", "element_threw", "interrupted", "linearizability_checks", "histories", "blocked_push_closed", "blocked_pull_closed"])
PROPS["C24"] = dict(units=[U("c24")], require=["pushed", "pulled", "push_closed", "pull_closed", "found_empty", "found_busy", "timeouts", "interrupted", "linearizability_checks", "histories", "timed_pulls"])
PROPS["C25"] = dict(units=[U("c25")], require=["pushed", "pulled", "push_closed", "pull_closed", "found_empty", "found_busy", "timeouts", "not_ready", "interrupted", "linearizability_checks", "histories", "timed_pulls", "deadlines_reached", "clock_steps"])
PROPS["C26"] = dict(units=[U("c26", defs=V4DT + EX), U("c26tp", ["c26.cpp"], defs=V4DT + EX + TP, quick=8000)], require=["tasks_run", "accepted", "refused", "dropped", "all_before_close", "mutual", "destroyed", "rescheduled", "creation_failures", "submit_failed", "loops", "by_hand", "inlined", "own_threads", "interrupted", "owner_interrupted"])
PROPS["C27"] = dict(units=[U("c27", defs=V4DT + EX)], require=["tasks_run", "accepted", "refused", "serialized", "chains", "tasks_threw"])
PROPS["C28"] = dict(units=[U("c28", defs=V4DT + EX)], require=["tasks_run", "accepted", "refused", "dropped", "drained", "ran_in_time", "owner_interrupted", "resubmitted", "earliest_changed", "creation_failures", "clock_steps", "interrupted", "closed_parts"])
PROPS["C29"] = dict(units=[U("c29"), U("c29v4", ["c29.cpp"], defs=V4DT + TP)], require=["threads_ended", "scopes", "groups", "removed", "joined_early", "interrupted", "owner_interrupted", "creation_failures", "misuse_refused", "group_detached"])
PROPS["C30"] = dict(units=[U("c30", defs=V4DT + TP, shim=1)], require=["operations", "histories", "guarded_accesses", "opposite_runs", "linearizability_checks", "threw", "lock_threw", "wrong_lock_refused", "streams", "forwarded", "testable", "try_refused"])
PROPS["C32"] = dict(units=[U("c32"), U("c32v4", ["c32.cpp"], defs=V4DT), U("c32ni", ["c32.cpp"], defs=NOINT, libdefs=NOINT, quick=15000)], require=["sleeps", "uninterruptible_sleeps", "interrupted", "delivered_later", "disabled", "past_requests", "exact_checks", "special_values", "clock_steps", "yields"])
PROPS["C33"] = dict(units=[U("c33", defs=V4DT + EX), U("c33n", ["c33.cpp"], defs=V4DT, quick=15000)], require=["regions", "reports", "tasks_run", "spawned", "failures", "canceled", "explicit_waits", "failed_regions"])
PROPS["C34"] = dict(units=[U("c34", defs=V4DT + EX + TP, shim=1, quick=2000, thorough=40000), U("c34v2", ["c34.cpp"], defs=V2SM, shim=1, quick=2000, thorough=40000)], require=["sweeps", "registrations", "undone", "memory_failures", "sync_failures", "thread_failures"])
# C31: every component, under every monitor of memory and concurrency errors; verdicts of other kinds are left to the other checks.
def _c31():
    L = []; seen = set()
    for p in sorted(PROPS):
        for u in PROPS[p]["units"]:
            if u["name"] in seen: continue
            seen.add(u["name"])
            v = dict(u, name=u["name"] + "-v", quick=max(300, u["quick"] // 24), thorough=60000, maxs=20); v.pop("scns", None); L.append(v)
    done = set()
    for p in sorted(PROPS):
        for u in PROPS[p]["units"]:
            if u["name"] in done or (u["src"][0] in done and u["src"][0] != "rw.cpp"): continue
            done.add(u["src"][0]); done.add(u["name"])
            for mode, sfx, q, t, pr in (("tsan", "-t", 120, 3000, 2), ("asan", "-a", 120, 3000, 2), ("val", "-m", 6, 200, 1)):
                n = dict(u, name=u["name"] + sfx, mode=mode, quick=q, thorough=t, procs=pr, maxs={"val": 10}.get(mode, 12)); n.pop("scns", None); n.pop("libdefs", None) if u["name"] == "c11fast" else None; L.append(n)
    return L
PROPS["C31"] = dict(units=_c31(), concurrent=6, keys=r"(race|badaccess|badfree|leak|crash|pthread-misuse|ThreadSanitizer|AddressSanitizer|LeakSanitizer|UBSan|Memcheck|exit-)", require=["acquired", "functions_run", "results"])
