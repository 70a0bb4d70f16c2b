// Task queues, driven by small generated programs.
#include "ds_common.hpp"
#include "task_queue.hpp"

using namespace knor;

OP(tq) {
    unsigned nrow = rq.u("nrow"), ncol = rq.u("ncol"), start = rq.u("start");
    dvec prog = rq.a("prog"), t;
    // built in dirty memory so that nothing can rely on zeroed storage
    char* mem = new char[sizeof(task_queue) + 16];
    memset(mem, 0xCB, sizeof(task_queue) + 16);
    double* base_ptr = (double*) (uintptr_t) 0x100000;   // never dereferenced
    task_queue* q;
    if (rq.i("ctor")) q = new (mem) task_queue(base_ptr, start, nrow, ncol);
    else {
        q = new (mem) task_queue();
        q->set_start_rid(start); q->set_nrow(nrow); q->set_ncol(ncol); q->set_data_ptr(base_ptr);
    }
    t.push_back(q->has_task());
    t.push_back(q->get_ncol());
    if (!rq.i("ctor")) q->reset();
    for (size_t i = 0; i < prog.size(); i++) {
        if (prog[i] == 0) {          // take
            bool h = q->has_task();
            unsigned nxt = q->get_nxt_rid();
            task* k = q->get_task();
            t.push_back(h);
            t.push_back(nxt);
            t.push_back(h ? k->get_start_rid() : 0);
            t.push_back(k->get_nrow());
            t.push_back(h ? (double) (k->get_data_ptr() - base_ptr) : (k->get_data_ptr() == NULL ? 0 : 1));
            delete k;
        } else if (prog[i] == 1) {   // drain
            size_t n = 0;
            while (q->has_task() && n++ < 100000) {
                task* k = q->get_task();
                t.push_back(k->get_start_rid());
                t.push_back(k->get_nrow());
                t.push_back((double) (k->get_data_ptr() - base_ptr));
                delete k;
            }
            t.push_back(-1);
        } else {
            q->reset();
            t.push_back(q->has_task());
        }
    }
    q->~task_queue();
    delete [] mem;
    rs.arr("t", t);
}

// row ranges, and the way back from a row id to its data, for a real coordinator
