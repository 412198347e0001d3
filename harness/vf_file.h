/* a small in-memory file system: the harness says which file a path names */
#pragma once
#include <stddef.h>
struct vf_disk_t { unsigned char *data; size_t size, cap; };
extern struct vf_disk_t vf_disk[4];
extern int vf_open_files;         /* files open right now */
extern size_t vf_read_limit;      /* most bytes one fread gives */
extern size_t vf_write_limit;     /* most bytes one fwrite takes */
extern int vf_unseekable;          /* the files have no position (a pipe) */
extern int vf_close_result;        /* what closing a file reports (buffered data is written then) */
/* supplied by the harness: index of the file a path names, -1 for none */
int vf_lookup(const char *path, int writing);
