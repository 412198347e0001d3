/* C34: what a connection sends, for every result of every send. Buffers are
   queued through the service, written by the write handler; the callbacks may
   queue more or close the connection. */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/stream/stream.h"
#ifndef TURNS
#define TURNS 3
#endif
#ifndef SIZES
#define SIZES 2, 1, 2
#endif
static const size_t sizes[] = {SIZES};
/* which buffers are queued before the loop, which are not released, what each callback does */
#ifndef INITIAL
#define INITIAL 2
#endif
#ifndef KEEP
#define KEEP 2
#endif
#ifndef MORE
#define MORE 1
#endif
#ifndef CLOSES
#define CLOSES -1
#endif
#define N (sizeof(sizes) / sizeof(sizes[0]))
#define MAX 8
static struct connection_t conn_, *const conn = &conn_;
static struct service_t serv;
static struct polling_t poll_;
static unsigned char content[MAX];
static size_t queued_bytes, queued, sent, done, offsets[N + 1];
static int closed, on_closed, blocked, failed, reg, unreg, deleted, calls, closer, more;
static unsigned char *bufs[N];
static unsigned char keep[N], released[N];
static int err;
time_t vf_time(time_t *t) { if(t) { *t = 0; } return 0; }
int *vf_errno(void) { return &err; }
int vf_close(int fd) { VF_ASSERT(fd == 7 && !closed, "the socket is closed once"); closed++; return 0; }
ssize_t vf_send(int fd, const void *p, size_t n, int flags) {
    size_t k;
    VF_ASSERT(fd == 7, "the socket of the connection is written");
    VF_ASSERT(flags & MSG_NOSIGNAL, "a closed peer does not kill the process");
    VF_ASSERT(!closed && !failed && !blocked, "nothing is sent after an error, after it blocked or after the close");
    VF_ASSERT(done < queued && sent + n == offsets[done + 1], "what is left of the first pending buffer is sent");
    for(size_t i = 0; i < n; i++) { VF_ASSERT(((const unsigned char *) p)[i] == content[sent + i], "the bytes are those queued, in order"); }
    calls++;
    k = vf_range(n > 0, n + 2);
    if(k == n + 1) { blocked = 1; err = EWOULDBLOCK; return -1; }
    if(k == n + 2) { failed = 1; err = vf_bool() ? EPIPE : ECONNRESET; return -1; }
    if(k < n) { blocked = 1; }
    sent += k;
    return (ssize_t) k;
}
static ERROR_CODE p_reg(struct polling_t *p, struct connection_t *c) { VF_ASSERT(p == &poll_ && c == conn && !closed, "an open connection is registered"); reg++; RAISE_NO_ERROR; }
static ERROR_CODE p_unreg(struct polling_t *p, struct connection_t *c) { VF_ASSERT(p == &poll_ && c == conn && !closed, "an open connection is unregistered"); unreg++; RAISE_NO_ERROR; }
static ERROR_CODE p_add(struct polling_t *p, struct connection_t *c) { (void) p; (void) c; RAISE_NO_ERROR; }
static ERROR_CODE p_del(struct polling_t *p, struct connection_t *c, unsigned char r) { VF_ASSERT(c == conn && r == TRUE && !closed && !deleted, "the connection is removed once"); (void) p; deleted++; RAISE_NO_ERROR; }
static ERROR_CODE on_close_(struct connection_t *c) { VF_ASSERT(c == conn && !on_closed, "the protocol is told once"); on_closed++; RAISE_NO_ERROR; }
static ERROR_CODE on_sent(struct connection_t *c, struct data_t *d, void *parameters);
static void queue(void) {
    size_t k = queued;
    unsigned char *b = (unsigned char *) malloc(4);
    for(size_t i = 0; i < sizes[k]; i++) { content[queued_bytes + i] = vf_u8(); b[i] = content[queued_bytes + i]; }
    bufs[k] = b;
    keep[k] = (KEEP >> k) & 1;
    queued_bytes += sizes[k];
    offsets[k + 1] = queued_bytes;
    queued++;
    if(keep[k]) { write_connection_c(conn, b, (unsigned int) sizes[k], on_sent, bufs + k, FALSE); }
    else { write_connection(conn, b, (unsigned int) sizes[k], on_sent, bufs + k); }
}
static ERROR_CODE on_sent(struct connection_t *c, struct data_t *d, void *parameters) {
    size_t k = (size_t) ((unsigned char **) parameters - bufs);
    VF_ASSERT(c == conn && k == done && sent == offsets[k + 1], "the callback follows the last byte of its buffer, in order and once");
    VF_ASSERT(d->data_base == bufs[k] && d->size_base == sizes[k], "the callback is given its buffer");
    VF_ASSERT(d->data_base[0] == d->data_base[0], "the buffer is still there");
    VF_ASSERT(!closed, "no callback follows the close");
    done++;
    if(((MORE >> k) & 1) && queued < N) { queue(); more = 1; }
    if(CLOSES == (int) k) { conn->close_connection(conn); closer = 1; if(queued < N) { queue(); } }
    RAISE_NO_ERROR;
}
void harness(void) {
    poll_.register_write = p_reg; poll_.unregister_write = p_unreg; poll_.register_connection = p_add; poll_.unregister_connection = p_del;
    serv.polling = &poll_;
    create_linked_list(&serv.connections_list);
    conn->status = STATUS_CLOSED; conn->socket_handle = 7;
    create_linked_list(&conn->write_queue); create_linked_list(&conn->read_queue);
    conn->service = &serv; conn->on_close = on_close_;
    conn->open_connection = open_connection; conn->close_connection = close_connection; conn->write_connection = write_connection;
    conn->register_write = register_write_connection; conn->unregister_write = unregister_write_connection; conn->invalidate_write = invalidate_write_connection;
    conn->open_connection(conn);
    conn->write_valid = TRUE;
    for(int i = 0; i < INITIAL; i++) { queue(); }
    VF_ASSERT(calls == 0 && reg > 0 && conn->write_registered == TRUE, "what is queued waits for the loop");
    for(int t = 0; t < TURNS; t++) {
        conn->write_valid = TRUE; blocked = 0;
        write_handler_stream_io(conn);
        if(closed) { break; }
        VF_ASSERT(!failed, "a failed send closes the connection");
        VF_ASSERT(done == queued || blocked, "all that is queued is sent, unless the socket blocks");
        VF_ASSERT(conn->sent == sent, "the bytes are counted");
        VF_ASSERT((conn->write_valid == FALSE) == (blocked != 0), "a blocked socket waits for an event, one that did not block does not");
        VF_ASSERT(blocked ? conn->write_registered == TRUE : conn->write_registered == FALSE && conn->write_queue->size == 0, "the connection is registered while there is something to send");
        if(!blocked) { break; }
    }
    VF_ASSERT(closed == (failed || closer) && deleted == closed && on_closed == closed, "the connection is closed by errors and by the protocol only");
    VF_ASSERT(serv.connections_list->size == (size_t) !closed, "the service forgets closed connections");
    if(!closed && !blocked) { VF_ASSERT(sent == queued_bytes && done == queued, "everything is sent"); VF_REACH("sent"); }
    if(more) { VF_REACH("queued by a callback"); }
    if(failed) { VF_REACH("failed"); }
    if(closer) { VF_REACH("closed by a callback"); }
    if(blocked) { VF_REACH("blocked"); }
    /* everything is released: what the service owns by the service, what it does not by its owner */
    if(!closed) { conn->close_connection(conn); }
    for(;;) { struct data_t *d; pop_value_linked_list(conn->write_queue, (void **) &d, TRUE); if(d == NULL) { break; } delete_data(d); }
    delete_linked_list(conn->write_queue); delete_linked_list(conn->read_queue);
    for(size_t k = 0; k < queued; k++) { if(keep[k]) { VF_ASSERT(bufs[k][0] == bufs[k][0], "what is to be kept is kept"); free(bufs[k]); } }
    delete_linked_list(serv.connections_list);
}
