/* C37: the life of a connection, by histories: o(pen) w(rite) k(eep: write without release)
   s(end) c(lose) e(rror) x(all connections of the service are closed) 2(another connection opens).
   What a send accepts is arbitrary. Everything is released at the end (leak check). */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/stream/stream.h"
#ifndef HISTORIES
#define HISTORIES "occ", "oowsc"
#endif
static const char *const histories[] = {HISTORIES};
static struct service_t serv;
static struct polling_t poll_;
static struct connection_t *conn[2];
static int opened[2], socket_closed[2], told_open[2], told_close[2], added[2], removed[2], callbacks, sends, failed;
static unsigned char *kept[4];
static int nkept;
static int err;
int *vf_errno(void) { return &err; }
time_t vf_time(time_t *t) { if(t) { *t = 0; } return 0; }
static int idx(struct connection_t *c) { int k = c == conn[1]; VF_ASSERT(c == conn[k], "one of the connections"); return k; }
int vf_close(int fd) {
    int k = fd - 10;
    VF_ASSERT(k == 0 || k == 1, "the socket of a connection");
    VF_ASSERT(opened[k] && !socket_closed[k], "the socket is closed once");
    VF_ASSERT(removed[k], "the poller forgets a socket before it is closed");
    socket_closed[k]++;
    return 0;
}
ssize_t vf_send(int fd, const void *p, size_t n, int flags) {
    size_t k = vf_range(1, n + 2);
    (void) p; (void) flags;
    VF_ASSERT(!socket_closed[fd - 10], "nothing is sent by a closed socket");
    sends++;
    if(k == n + 1) { err = EWOULDBLOCK; return -1; }
    if(k == n + 2) { err = EPIPE; failed = 1; return -1; }
    return (ssize_t) k;
}
static ERROR_CODE p_reg(struct polling_t *p, struct connection_t *c) { (void) p; VF_ASSERT(!removed[idx(c)], "an open connection"); RAISE_NO_ERROR; }
static ERROR_CODE p_add(struct polling_t *p, struct connection_t *c) { int k = idx(c); (void) p; VF_ASSERT(!added[k], "the poller is told once"); added[k]++; RAISE_NO_ERROR; }
static ERROR_CODE p_del(struct polling_t *p, struct connection_t *c, unsigned char r) { int k = idx(c); (void) p; VF_ASSERT(added[k] && !removed[k] && r == TRUE && !socket_closed[k], "the poller forgets the connection once"); removed[k]++; RAISE_NO_ERROR; }
static ERROR_CODE p_out(struct polling_t *p, struct connection_t *c) { (void) p; VF_ASSERT(!removed[idx(c)], "a closed connection is not scheduled"); RAISE_NO_ERROR; }
static ERROR_CODE on_data(struct io_connection_t *i, unsigned char *d, size_t n) { (void) i; (void) d; (void) n; RAISE_NO_ERROR; }
static ERROR_CODE on_open_(struct io_connection_t *i) { int k = idx(i->connection); VF_ASSERT(added[k] && !told_open[k], "the protocol is told of the opening once"); told_open[k]++; RAISE_NO_ERROR; }
static ERROR_CODE on_close_(struct io_connection_t *i) { int k = idx(i->connection); VF_ASSERT(told_open[k] && !told_close[k] && !socket_closed[k], "the protocol is told of the closing once, before the socket is closed"); told_close[k]++; RAISE_NO_ERROR; }
static ERROR_CODE on_sent(struct connection_t *c, struct data_t *d, void *p) { (void) d; VF_ASSERT(p == (void *) kept && !socket_closed[idx(c)], "what is sent is told to its owner"); callbacks++; RAISE_NO_ERROR; }
/* the other protocols have no part here */
#define OTHER(n) ERROR_CODE data_handler_stream_##n(struct io_connection_t *i, unsigned char *d, size_t s) { (void) i; (void) d; (void) s; VF_ASSERT(0, "another protocol"); RAISE_NO_ERROR; } \
    ERROR_CODE open_handler_stream_##n(struct io_connection_t *i) { (void) i; VF_ASSERT(0, "another protocol"); RAISE_NO_ERROR; } \
    ERROR_CODE close_handler_stream_##n(struct io_connection_t *i) { (void) i; VF_ASSERT(0, "another protocol"); RAISE_NO_ERROR; }
OTHER(http) OTHER(http_client) OTHER(torrent)
static void open_one(int k) {
    struct connection_t *c;
    if(conn[k] == NULL) {
        struct custom_parameters_t *cp = (struct custom_parameters_t *) malloc(sizeof(struct custom_parameters_t));
        cp->on_data = on_data; cp->on_open = on_open_; cp->on_close = on_close_;
        create_connection(&conn[k], 10 + k);
        c = conn[k];
        c->service = &serv; c->protocol = CUSTOM_PROTOCOL; c->parameters = cp;
        c->open_connection = open_connection; c->close_connection = close_connection; c->write_connection = write_connection;
        c->register_write = register_write_connection; c->unregister_write = unregister_write_connection; c->invalidate_write = invalidate_write_connection; c->invalidate_read = invalidate_read_connection;
        c->register_read = register_read_connection; c->unregister_read = unregister_read_connection; c->add_outstanding = add_outstanding_connection;
        c->on_write = write_handler_stream_io; c->on_error = error_handler_stream_io; c->on_open = open_handler_stream_io; c->on_close = close_handler_stream_io;
    }
    open_connection(conn[k]);
    opened[k] = 1;
    VF_ASSERT(conn[k]->status == STATUS_OPEN && told_open[k] == 1 && added[k] == 1, "it is open");
}
static void one(const char *h) {
    conn[0] = conn[1] = NULL; callbacks = sends = failed = nkept = 0;
    for(int k = 0; k < 2; k++) { opened[k] = socket_closed[k] = told_open[k] = told_close[k] = added[k] = removed[k] = 0; }
    create_linked_list(&serv.connections_list);
    for(; *h; h++) {
        struct connection_t *c = conn[0];
        if(*h == 'o') { open_one(0); }
        if(*h == '2') { open_one(1); }
        if(*h == 'w') { unsigned char *b = (unsigned char *) malloc(2); b[0] = b[1] = 7; write_connection(c, b, 2, on_sent, (void *) kept); }
        if(*h == 'k') { unsigned char *b = (unsigned char *) malloc(2); b[0] = b[1] = 7; kept[nkept++] = b; write_connection_c(c, b, 2, on_sent, (void *) kept, FALSE); }
        if(*h == 's' && c->status == STATUS_OPEN) { write_handler_stream_io(c); }
        if(*h == 'c') { close_connection(c); VF_ASSERT(c->status == STATUS_CLOSED && socket_closed[0] == 1 && told_close[0] == 1 && removed[0] == 1, "it is closed");
            /* what handlers may still ask of it does not reach the poller */
            CALL_V(c->register_read, c); CALL_V(c->unregister_read, c); CALL_V(c->register_write, c); CALL_V(c->unregister_write, c); CALL_V(c->add_outstanding, c); CALL_V(c->open_connection, c); CALL_V(c->close_connection, c);
            VF_ASSERT(c->status == STATUS_CLOSED, "it stays closed");
        }
        if(*h == 'e' && c->status == STATUS_OPEN) { error_handler_stream_io(c); VF_ASSERT(c->status == STATUS_CLOSED && socket_closed[0] == 1 && told_close[0] == 1, "an error closes it"); }
        if(*h == 'x') { close_connections_service(&serv); for(int k = 0; k < 2; k++) { VF_ASSERT(!opened[k] || (socket_closed[k] && told_close[k] && removed[k]), "all are closed"); } VF_ASSERT(serv.connections_list->size == 0, "none is left"); }
        VF_ASSERT(serv.connections_list->size == (size_t) (opened[0] - socket_closed[0] + opened[1] - socket_closed[1]), "the service knows its open connections");
        if(failed && *h == 's') { VF_ASSERT(socket_closed[0] == 1 && told_close[0] == 1, "a failed send closes it"); VF_REACH("failed"); }
    }
    for(int k = 0; k < 2; k++) { if(conn[k] && opened[k]) { if(!socket_closed[k]) { close_connection(conn[k]); } delete_connection(conn[k]); } }
    for(int i = 0; i < nkept; i++) { VF_ASSERT(kept[i][0] == 7, "what is not to be released is kept"); free(kept[i]); }
    delete_linked_list(serv.connections_list);
}
void harness(void) {
    poll_.register_write = p_reg; poll_.unregister_write = p_reg; poll_.register_read = p_reg; poll_.unregister_read = p_reg; poll_.add_outstanding = p_out; poll_.register_connection = p_add; poll_.unregister_connection = p_del;
    serv.polling = &poll_;
    for(size_t i = 0; i < sizeof(histories) / sizeof(histories[0]); i++) { one(histories[i]); }
    conn[0] = conn[1] = NULL; kept[0] = kept[1] = kept[2] = kept[3] = NULL;
    VF_REACH("end");
}
