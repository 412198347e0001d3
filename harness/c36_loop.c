/* C36: the event loop over the kernel's event queue (a contract: it tells of
   registered connections only). Connections are on the heap and are freed when
   the loop deletes them, so that any later use is an error. */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/polling/polling_epoll.h"
#ifndef NC
#define NC 2
#endif
#ifndef TURNS
#define TURNS 2
#endif
#ifndef ACTIONS
#define ACTIONS 5
#endif
/* the reactions: a given one, or (negative) an arbitrary one; the events: given flags, or (negative) arbitrary ones */
#ifndef REACTION
#define REACTION(t, phase, kind, k) -1
#endif
#ifndef EVENTS
#define EVENTS(t, k) 15
#endif
#ifndef VICTIM
#define VICTIM(k) (((k) + 1) % NC)
#endif
static struct polling_t poll_;
static struct service_t serv;
static struct connection_t *conns[NC];
static int open_[NC], deleted[NC], rdue[NC], wdue[NC], edue[NC], rout[NC], wout[NC], mod[NC], waits, intr, phase, sock, turn;
static int err;
int *vf_errno(void) { return &err; }
#ifdef __CPROVER__
/* growing lists, of one or two steps */
void *vf_realloc(void *p, size_t n) {
    struct connection_t **o = (struct connection_t **) p, **r;
    VF_ASSERT(n == VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *) || n == 2 * VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *), "bound: one or two steps");
    if(n == VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)) { r = (struct connection_t **) malloc(VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)); VF_ASSERT(o == NULL, "a list that grows"); }
    else { r = (struct connection_t **) malloc(2 * VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)); if(o) { for(int i = 0; i < VIRIATUM_MAX_EVENTS; i++) { r[i] = o[i]; } free(o); } }
    return r;
}
#endif
int vf_epoll_create(int n) { (void) n; return 40; }
int vf_close(int fd) { if(fd == 5) { sock++; } return 0; }
int vf_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) {
    int k = fd - 10;
    VF_ASSERT(e == 40 && k >= 0 && k < NC, "the socket of a connection");
    if(op == EPOLL_CTL_DEL) { VF_ASSERT(open_[k], "an open connection is removed"); return 0; }
    VF_ASSERT(ev->data.ptr == (void *) conns[k] && (ev->events & EPOLLET) && (ev->events & EPOLLIN) && (ev->events & EPOLLOUT), "the connection waits for its events");
    if(op == EPOLL_CTL_MOD) { VF_ASSERT(open_[k], "an open connection is told about again"); mod[k] = 1; }
    return 0;
}
int vf_epoll_wait(int e, struct epoll_event *ev, int n, int timeout) {
    int c = 0;
    VF_ASSERT(e == 40 && n == VIRIATUM_MAX_EVENTS, "the events that fit");
    for(int k = 0; k < NC; k++) { VF_ASSERT(!open_[k] || timeout == 0 || (!rout[k] && !wout[k]), "the loop does not sleep while something is pending"); }
    waits++; phase = 1;
    if(turn == intr - 1) { err = vf_bool() ? EINTR : EBADF; VF_REACH("interrupted"); return -1; }
    for(int i = 0; i < NC && i < n; i++) {
        /* the connections take turns, where the queue holds fewer events than there are connections */
        int k = (i + (NC > VIRIATUM_MAX_EVENTS ? turn : 0)) % NC, g = EVENTS(turn, k);
        unsigned f = g < 0 ? vf_u8() & 15 : (unsigned) g;
        if(!open_[k]) { continue; }
        ev[c].events = EPOLLRDHUP; ev[c].data.ptr = (void *) conns[k];
        if(f & 1) { ev[c].events |= EPOLLIN; rdue[k] = 1; mod[k] = 0; }
        if(f & 2) { ev[c].events |= EPOLLOUT; wdue[k] = 1; mod[k] = 0; }
        if(f & 4) { ev[c].events |= EPOLLERR; edue[k] = 1; }
        if(f & 8) { ev[c].events |= EPOLLHUP; edue[k] = 1; }
        c++;
    }
    return c;
}
ERROR_CODE delete_connection(struct connection_t *c) {
    int k = (int) c->id;
    VF_ASSERT(conns[k] == c && !open_[k] && !deleted[k], "closed connections are deleted, once");
    deleted[k] = 1;
    VF_REACH("deleted");
    free(c);
    RAISE_NO_ERROR;
}
static void do_close(int k) {
    struct connection_t *c = conns[k];
    if(!open_[k]) { return; }
    unregister_connection_polling_epoll(&poll_, c, TRUE);
    open_[k] = 0; c->status = STATUS_CLOSED;
    VF_ASSERT(!deleted[k], "the connection is deleted later");
}
static void act(int k, int kind) {
    int r = REACTION(turn, phase, kind, k), a = r < 0 ? (int) vf_range(0, ACTIONS - 1) : r;
    if(a == 1) { do_close(k); }
    if(a == 2) { do_close(VICTIM(k)); }
    if(a == 3) { add_outstanding_polling_epoll(&poll_, conns[k]); if(!mod[k]) { rout[k] = 1; } }
    if(a == 4) {
        int was = conns[k]->write_registered;
        VF_ASSERT(!was || wout[k] || mod[k] || !conns[k]->write_valid, "what is registered is pending");
        register_write_polling_epoll(&poll_, conns[k]); conns[k]->write_registered = TRUE;
        if(!was && conns[k]->write_valid && !mod[k]) { wout[k] = 1; }
    }
}
static ERROR_CODE on_read(struct connection_t *c) {
    int k = (int) c->id;
    VF_ASSERT(conns[k] == c && open_[k] && !deleted[k], "only open connections are called");
    if(phase) { VF_ASSERT(rdue[k] && c->read_valid, "a read is called for an event, once"); rdue[k] = 0; VF_REACH("read"); }
    else { VF_ASSERT(rout[k], "a pending read is called once"); rout[k] = 0; VF_REACH("pending read"); }
    act(k, 0);
    RAISE_NO_ERROR;
}
static ERROR_CODE on_write(struct connection_t *c) {
    int k = (int) c->id;
    VF_ASSERT(conns[k] == c && open_[k] && !deleted[k], "only open connections are called");
    if(phase) { VF_ASSERT(wdue[k] && c->write_valid, "a write is called for an event, once"); wdue[k] = 0; VF_REACH("write"); }
    else { VF_ASSERT(wout[k], "a pending write is called once"); wout[k] = 0; VF_REACH("pending write"); }
    c->write_registered = FALSE; wout[k] = 0;
    act(k, 1);
    RAISE_NO_ERROR;
}
static ERROR_CODE on_error(struct connection_t *c) {
    int k = (int) c->id;
    VF_ASSERT(conns[k] == c && open_[k] && !deleted[k] && phase && edue[k], "errors are told to open connections, once");
    edue[k] = 0;
    do_close(k);
    RAISE_NO_ERROR;
}
void harness(void) {
    poll_.service = &serv; serv.polling = &poll_; serv.service_socket_handle = 5;
#ifdef INTR
    intr = INTR;
#endif
    open_polling_epoll(&poll_);
    for(int k = 0; k < NC; k++) {
        struct connection_t *c = (struct connection_t *) malloc(sizeof(struct connection_t));
        c->id = (unsigned long long) k; c->status = STATUS_OPEN; c->socket_handle = 10 + k; c->service = &serv;
        c->read_registered = TRUE; c->write_registered = FALSE; c->read_valid = FALSE; c->write_valid = FALSE; c->is_outstanding = FALSE;
        c->on_read = on_read; c->on_write = on_write; c->on_error = on_error; c->on_handshake = NULL;
        conns[k] = c; open_[k] = 1;
        register_connection_polling_epoll(&poll_, c);
    }
    for(int t = 0; t < TURNS; t++) {
        phase = 0; turn = t;
        poll_polling_epoll(&poll_);
        phase = 1;
        call_polling_epoll(&poll_);
        VF_ASSERT(waits == t + 1, "the loop waits once a turn");
        for(int k = 0; k < NC; k++) {
            VF_ASSERT(!open_[k] || (!rdue[k] && !wdue[k] && !edue[k]), "every event of an open connection is told");
            VF_ASSERT(deleted[k] == !open_[k], "what is closed in a turn is deleted at its end");
            rdue[k] = wdue[k] = edue[k] = 0;
        }
    }
    close_polling_epoll(&poll_);
    VF_REACH("end");
}
