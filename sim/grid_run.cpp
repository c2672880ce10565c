#include "grid.hpp"
#include <boost/thread.hpp>
#include <cslibs_path_planning/generic/Common.hpp>

thread_local Hooks* g_hooks = nullptr;
bool g_threw = false;
int g_threw_ty = 0, g_threw_id = 0;

QResult run_query(IPlanner& p, SimMap* map, const Query& q, bool set_map)
{
    using namespace sim;
    QResult r;
    set_tie_seed(q.ties);
    phase(q.phase);
    clear_interrupt(current_task());
    g_threw = false;
    Hooks local;
    Hooks* saved = g_hooks;
    if (!g_hooks) g_hooks = &local;
    g_hooks->stop = false;
    g_hooks->accepted.clear();
    trace("query: kind %d from (%g,%g) to (%g,%g) on %ux%u", q.kind, q.sx, q.sy, q.gx, q.gy, map->d.w, map->d.h);
    try {
        Lib lib;
        p.set_cand(q.cand != 0);
        p.set_time_limit(q.tlimit);
        if (set_map) p.set_map(map);
        p.run(q, r);
        r.expansions = p.expansions();
        r.multi = p.multi();
        if (q.over != 0 || q.kind >= 2) p.candidates(r.cands);
    } catch (boost::thread_interrupted&) {
        r.outcome = O_INTERRUPTED;
    } catch (Injected& e) {
        r.outcome = O_INJECTED; r.err_id = e.id;
    } catch (InjectedLogic& e) {
        r.outcome = O_INJECTED; r.err_id = 1000 + e.id;
    } catch (InjectedAlloc& e) {
        r.outcome = O_INJECTED; r.err_id = 2000 + e.id;
    } catch (OddError& e) {
        r.outcome = O_ODD; r.err_id = e.id;
    } catch (lib_path::OutsideMapException&) {
        r.outcome = O_OUTSIDE;
    } catch (std::bad_alloc&) {
        r.outcome = O_NOMEM;
    } catch (std::logic_error& e) {
        r.outcome = O_LOGIC; r.what = e.what();
    } catch (std::exception& e) {
        r.outcome = O_OTHER; r.what = e.what();
    } catch (...) {
        r.outcome = O_OTHER; r.what = "unknown exception";
    }
    g_hooks = saved;
    std::string fp = r.pack();
    u64 h = 14695981039346656037ull;
    for (unsigned char c : fp) h = (h ^ c) * 1099511628211ull;
    ev("result", h);
    trace("result: %s", r.text().c_str());
    return r;
}

void grid_actions(std::function<SimMap*()> cur_map)
{
    using namespace sim;
    set_action_handler([cur_map](const Op& o, int kind) {
        const std::string what = o.str("do");
        if (what == "throw") {
            switch (kind) {
            case READ: fired(F_READ_ERR); break;
            case WRITE: fired(F_WRITE_ERR); break;
            case CB: fired(F_CB_ERR); break;
            case GT: fired(F_GT_ERR); break;
            case CAND: fired(F_CAND_ERR); break;
            default: return;                 // nowhere an error can come from
            }
            int id = (int)o.num("id", 1), ty = (int)o.num("ty");
            if (!g_threw) { g_threw_ty = ty; g_threw_id = id; }
            g_threw = true;
            trace("%s throws error %d", kind_name(kind), id);
            ev("throw", kind, id);
            switch (ty) {
            case ERR_ODD: throw OddError{id};
            case ERR_INTERRUPTED: throw boost::thread_interrupted();     // it waited at an interruption point of its own
            case ERR_LOGIC: throw InjectedLogic(id);
            case ERR_ALLOC: throw InjectedAlloc(id);
            default: throw Injected(id);
            }
        }
        if (what == "stop") {
            if (kind != CAND || !g_hooks) return;
            fired(F_CAND_STOP);
            g_hooks->stop = true;
            return;
        }
        if (what == "edit") {
            SimMap* m = cur_map ? cur_map() : nullptr;
            if (!m) return;
            fired(F_MAP_CHANGE);
            ev("edit", o.num("x"), o.num("y"), o.num("v"));
            trace("environment sets cell (%lld,%lld) to %lld", o.num("x"), o.num("y"), o.num("v"));
            m->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v"));
        }
    });
}
