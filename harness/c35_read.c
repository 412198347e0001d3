/* C35: what the read handler delivers, for every result of every receive.
   The handler of the protocol may close the connection at any delivery. */

#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/stream/stream.h"
#define STREAM (VIRIATUM_MAX_READ + VIRIATUM_READ_SIZE + 1)
static struct connection_t conn;
static struct io_connection_t *io;
static unsigned char stream_bytes[STREAM];
static size_t got, delivered;
static int closed, invalidated, scheduled, calls, ended, blocked, failed, closer;
ssize_t vf_recv(int fd, void *p, size_t n, int flags) {
    size_t k = vf_range(0, VIRIATUM_READ_SIZE + 2);
    (void) flags;
    VF_ASSERT(fd == 7 && n == VIRIATUM_READ_SIZE, "the socket of the connection is read");
    VF_ASSERT(!closed && !ended && !blocked && !failed, "nothing is read after the end, or after it blocked, or closed");
    VF_ASSERT(got <= VIRIATUM_MAX_READ, "no more is read than one turn allows");
    calls++;
    if(k == 0) { ended = 1; return 0; }
    if(k == VIRIATUM_READ_SIZE + 1) { blocked = 1; *vf_errno() = EWOULDBLOCK; return -1; }
    if(k == VIRIATUM_READ_SIZE + 2) { failed = 1; *vf_errno() = vf_bool() ? ECONNRESET : EINTR; return -1; }
    for(size_t i = 0; i < k; i++) { ((unsigned char *) p)[i] = stream_bytes[got + i]; }
    got += k;
    return (ssize_t) k;
}
static int err;
int *vf_errno(void) { return &err; }
static ERROR_CODE do_close(struct connection_t *c) {
    VF_ASSERT(c == &conn && !closed, "the connection is closed once");
    closed++;
    c->status = STATUS_CLOSED;
    c->close_connection = NULL; c->invalidate_read = NULL; c->add_outstanding = NULL;
    free(io);
    RAISE_NO_ERROR;
}
static ERROR_CODE do_invalidate(struct connection_t *c) { VF_ASSERT(c == &conn && blocked, "the socket has no more"); invalidated++; RAISE_NO_ERROR; }
static ERROR_CODE do_schedule(struct connection_t *c) { VF_ASSERT(c == &conn && !closed, "an open connection is scheduled"); scheduled++; RAISE_NO_ERROR; }
static ERROR_CODE on_data(struct io_connection_t *i, unsigned char *d, size_t n) {
    VF_ASSERT(i == io && !closed, "an open connection is given data");
    VF_ASSERT(n > 0 && delivered + n <= got, "no more is delivered than was received");
    for(size_t k = 0; k < n; k++) { VF_ASSERT(d[k] == stream_bytes[delivered + k], "the bytes are those received, in order"); }
    delivered += n;
    closer = vf_bool();
    if(closer) { conn.close_connection(&conn); }
    RAISE_NO_ERROR;
}
void harness(void) {
    vf_fill(stream_bytes, STREAM);
    io = (struct io_connection_t *) malloc(sizeof(struct io_connection_t));
    io->connection = &conn; io->on_data = on_data; io->on_open = NULL; io->on_close = NULL; io->lower = NULL;
    conn.lower = io; conn.status = STATUS_OPEN; conn.socket_handle = 7;
    conn.close_connection = do_close; conn.invalidate_read = do_invalidate; conn.add_outstanding = do_schedule;
    read_handler_stream_io(&conn);
    VF_ASSERT(calls > 0, "the socket is read");
    VF_ASSERT(closer || delivered == got, "every byte is delivered");
    VF_ASSERT(closed == (ended || failed || closer), "the connection is closed at the end, by an error or by the protocol only");
    if(!closed) {
        VF_ASSERT(blocked ? invalidated == 1 && scheduled == 0 : scheduled == 1 && invalidated == 0, "what is left is read in another turn");
        VF_ASSERT(conn.received == got, "the bytes are counted");
    }
    if(closer) { VF_REACH("closed by the protocol"); }
    if(blocked) { VF_REACH("blocked"); }
    if(ended && delivered > 0) { VF_REACH("ended"); }
    if(failed) { VF_REACH("failed"); }
    if(scheduled) { VF_REACH("another turn"); }
}
