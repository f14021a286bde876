// Several threads pausing and desyncing the provider, with provider failures.
#include "world.hpp"
using namespace W;
#ifndef SPURIOUS
#define SPURIOUS 1
#endif
#ifndef THREADS
#define THREADS 2
#endif
#ifndef PREEMPT
#define PREEMPT 2
#endif
#ifndef OPLO
#define OPLO 0
#endif
#ifndef OPHI
#define OPHI 2
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
static server* sp;
static int holders, desync_held, stuck;
static void worker(void* a)
{
    server& s(*sp);
    const int me = int(intptr_t(a));
    for (int i = 0; i < ROUNDS; ++i)
    switch (OPLO + pick("operation", OPHI - OPLO + 1))
    {
    case 0:
    {
        wsrep::seqno q(s.pause());
        wsym_note("paused", uint64_t(q.get() + 1));
        if (q.is_undefined()) { wsym_cover("pause_failed"); break; }
        wsym_assert(++holders == 1, "two threads believe to have paused the provider");
        wsym_assert(s.p->paused == 1 && s.pause_seqno() == q, "pause reported although the provider is not paused");
        wsym_yield("paused");
        wsym_assert(s.p->paused == 1 && s.pause_seqno() == q, "provider resumed under the thread that paused it");
        --holders;
        s.resume();
        wsym_cover("paused");
        break;
    }
    case 1:
    {
        wsrep::seqno q(s.desync_and_pause());
        wsym_note("dpaused", uint64_t(q.get() + 1));
        if (q.is_undefined()) { wsym_cover("desync_and_pause_failed"); break; }
        wsym_assert(++holders == 1, "two threads believe to have paused the provider");
        const bool d = s.desynced_on_pause();
        wsym_yield("paused");
        wsym_assert(s.desynced_on_pause() == d, "desync ownership changed while paused");
        wsym_assert(!d || s.p->desynced > 0, "desync ownership without a desync");
        --holders;
        s.resume_and_resync();
        wsym_cover("desync_and_paused");
        break;
    }
    case 3:
    {
        client c(s, wsrep::client_id(unsigned(me)), wsrep::client_state::m_local);
        c.open(c.id());
        c.before_command();
        if (c.begin_rsu(1) == 0)
        {
            wsym_assert(++holders == 1, "two threads believe to have paused the provider");
            wsym_assert(c.mode() == wsrep::client_state::m_rsu, "not in RSU mode");
            wsym_assert(s.p->paused == 1 && s.p->desynced > 0, "RSU began without the server being isolated");
            wsym_yield("rsu");
            wsym_assert(s.p->paused == 1 && s.p->desynced > 0, "isolation ended under a schema upgrade");
            --holders;
            int r = c.end_rsu();
            wsym_assert(r == 0, "ending RSU failed");
            wsym_cover("rsu");
        }
        else wsym_cover("rsu_failed");
        wsym_assert(c.mode() == wsrep::client_state::m_local, "session not back in local mode");
        c.after_command_before_result(); c.after_command_after_result();
        c.close(); c.cleanup();
        break;
    }
    default:
        if (s.desync() == 0)
        {
            wsym_assert(s.p->desynced > 0, "desync reported although the provider is in sync");
            wsym_yield("desynced");
            s.resync();
            wsym_cover("desynced");
        }
        break;
    }
}
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsrep::server_state::rm_sync);
    s.go_synced();
    sp = &s;
    w.k.pause = true; w.k.desync = true; w.k.wait_committing = true;
    wsym_sched(PREEMPT, SPURIOUS);
    for (int i = 0; i < THREADS; ++i) wsym_spawn(worker, (void*)(intptr_t)(i + 1));
    wsym_join_all();
    wsym_assert(s.p->paused == 0, "provider left paused");
    wsym_assert(s.p->desynced == 0, "provider left desynced");
    wsym_assert(s.pause_seqno().is_undefined(), "pause position left behind");
    // the server can be paused again
    w.k = knobs();
    wsrep::seqno q(s.desync_and_pause());
    wsym_assert(!q.is_undefined() && s.p->paused == 1 && s.p->desynced == 1, "cannot pause afterwards");
    s.resume_and_resync();
    wsym_assert(s.p->paused == 0 && s.p->desynced == 0, "cannot resume afterwards");
    wsym_cover("end");
}
