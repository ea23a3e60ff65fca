/* Declarations of uvwasi (https://github.com/nodejs/uvwasi) that pwart_syslib uses, for analysis only:
   uvwasi is not installed here.  Types and signatures as in uvwasi v0.0.x include/uvwasi.h and wasi_types.h. */
#ifndef PWSA_STUB_UVWASI_H
#define PWSA_STUB_UVWASI_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <uv.h>
typedef uint32_t uvwasi_size_t;
typedef uint16_t uvwasi_errno_t;
typedef uint8_t uvwasi_advice_t, uvwasi_whence_t, uvwasi_signal_t, uvwasi_sdflags_t, uvwasi_filetype_t, uvwasi_preopentype_t, uvwasi_eventtype_t;
typedef uint16_t uvwasi_fdflags_t, uvwasi_oflags_t, uvwasi_fstflags_t, uvwasi_riflags_t, uvwasi_roflags_t, uvwasi_siflags_t, uvwasi_subclockflags_t, uvwasi_eventrwflags_t;
typedef uint32_t uvwasi_fd_t, uvwasi_clockid_t, uvwasi_exitcode_t, uvwasi_lookupflags_t;
typedef uint64_t uvwasi_filesize_t, uvwasi_timestamp_t, uvwasi_rights_t, uvwasi_dircookie_t, uvwasi_userdata_t, uvwasi_device_t, uvwasi_inode_t, uvwasi_linkcount_t;
typedef int64_t uvwasi_filedelta_t;
typedef struct uvwasi_ciovec_s { const void *buf; uvwasi_size_t buf_len; } uvwasi_ciovec_t;
typedef struct uvwasi_iovec_s { void *buf; uvwasi_size_t buf_len; } uvwasi_iovec_t;
typedef struct { uvwasi_filetype_t fs_filetype; uvwasi_fdflags_t fs_flags; uvwasi_rights_t fs_rights_base, fs_rights_inheriting; } uvwasi_fdstat_t;
typedef struct { uvwasi_device_t st_dev; uvwasi_inode_t st_ino; uvwasi_filetype_t st_filetype; uvwasi_linkcount_t st_nlink; uvwasi_filesize_t st_size; uvwasi_timestamp_t st_atim, st_mtim, st_ctim; } uvwasi_filestat_t;
typedef struct { uvwasi_preopentype_t pr_type; union { struct { uvwasi_size_t pr_name_len; } dir; } u; } uvwasi_prestat_t;
typedef struct { uvwasi_userdata_t userdata; uvwasi_eventtype_t type; union { struct { uvwasi_clockid_t clock_id; uvwasi_timestamp_t timeout, precision; uvwasi_subclockflags_t flags; } clock; struct { uvwasi_fd_t fd; } fd_readwrite; } u; } uvwasi_subscription_t;
typedef struct { uvwasi_userdata_t userdata; uvwasi_errno_t error; uvwasi_eventtype_t type; union { struct { uvwasi_filesize_t nbytes; uvwasi_eventrwflags_t flags; } fd_readwrite; } u; } uvwasi_event_t;
typedef struct { void *mem_user_data; void *(*malloc)(size_t, void *); void (*free)(void *, void *); void *(*calloc)(size_t, size_t, void *); void *(*realloc)(void *, size_t, void *); } uvwasi_mem_t;
struct uvwasi_fd_table_t;
typedef struct { struct uvwasi_fd_table_t *fds; uvwasi_size_t argc; char **argv; char *argv_buf; uvwasi_size_t argv_buf_size; uvwasi_size_t envc; char **env; char *env_buf; uvwasi_size_t env_buf_size; const uvwasi_mem_t *allocator; uv_loop_t *loop; } uvwasi_t;
typedef struct { const char *mapped_path; const char *real_path; } uvwasi_preopen_t;
typedef struct { const char *address; int port; } uvwasi_preopen_socket_t;
typedef struct { uvwasi_size_t fd_table_size; uvwasi_size_t preopenc; uvwasi_preopen_t *preopens; uvwasi_size_t preopen_socketc; uvwasi_preopen_socket_t *preopen_sockets; uvwasi_size_t argc; char **argv; char **envp; uvwasi_fd_t in, out, err; const uvwasi_mem_t *allocator; } uvwasi_options_t;
#define U(name, ...) uvwasi_errno_t uvwasi_##name(uvwasi_t *uvwasi, ##__VA_ARGS__)
U(init, const uvwasi_options_t *options);
void uvwasi_destroy(uvwasi_t *uvwasi);
void uvwasi_options_init(uvwasi_options_t *options);
const char *uvwasi_embedder_err_code_to_string(uvwasi_errno_t code);
U(args_get, char **argv, char *argv_buf);
U(args_sizes_get, uvwasi_size_t *argc, uvwasi_size_t *argv_buf_size);
U(clock_res_get, uvwasi_clockid_t clock_id, uvwasi_timestamp_t *resolution);
U(clock_time_get, uvwasi_clockid_t clock_id, uvwasi_timestamp_t precision, uvwasi_timestamp_t *time);
U(environ_get, char **environment, char *environ_buf);
U(environ_sizes_get, uvwasi_size_t *environ_count, uvwasi_size_t *environ_buf_size);
U(fd_advise, uvwasi_fd_t fd, uvwasi_filesize_t offset, uvwasi_filesize_t len, uvwasi_advice_t advice);
U(fd_allocate, uvwasi_fd_t fd, uvwasi_filesize_t offset, uvwasi_filesize_t len);
U(fd_close, uvwasi_fd_t fd);
U(fd_datasync, uvwasi_fd_t fd);
U(fd_fdstat_get, uvwasi_fd_t fd, uvwasi_fdstat_t *buf);
U(fd_fdstat_set_flags, uvwasi_fd_t fd, uvwasi_fdflags_t flags);
U(fd_fdstat_set_rights, uvwasi_fd_t fd, uvwasi_rights_t fs_rights_base, uvwasi_rights_t fs_rights_inheriting);
U(fd_filestat_get, uvwasi_fd_t fd, uvwasi_filestat_t *buf);
U(fd_filestat_set_size, uvwasi_fd_t fd, uvwasi_filesize_t st_size);
U(fd_filestat_set_times, uvwasi_fd_t fd, uvwasi_timestamp_t st_atim, uvwasi_timestamp_t st_mtim, uvwasi_fstflags_t fst_flags);
U(fd_pread, uvwasi_fd_t fd, const uvwasi_iovec_t *iovs, uvwasi_size_t iovs_len, uvwasi_filesize_t offset, uvwasi_size_t *nread);
U(fd_prestat_get, uvwasi_fd_t fd, uvwasi_prestat_t *buf);
U(fd_prestat_dir_name, uvwasi_fd_t fd, char *path, uvwasi_size_t path_len);
U(fd_pwrite, uvwasi_fd_t fd, const uvwasi_ciovec_t *iovs, uvwasi_size_t iovs_len, uvwasi_filesize_t offset, uvwasi_size_t *nwritten);
U(fd_read, uvwasi_fd_t fd, const uvwasi_iovec_t *iovs, uvwasi_size_t iovs_len, uvwasi_size_t *nread);
U(fd_readdir, uvwasi_fd_t fd, void *buf, uvwasi_size_t buf_len, uvwasi_dircookie_t cookie, uvwasi_size_t *bufused);
U(fd_renumber, uvwasi_fd_t from, uvwasi_fd_t to);
U(fd_seek, uvwasi_fd_t fd, uvwasi_filedelta_t offset, uvwasi_whence_t whence, uvwasi_filesize_t *newoffset);
U(fd_sync, uvwasi_fd_t fd);
U(fd_tell, uvwasi_fd_t fd, uvwasi_filesize_t *offset);
U(fd_write, uvwasi_fd_t fd, const uvwasi_ciovec_t *iovs, uvwasi_size_t iovs_len, uvwasi_size_t *nwritten);
U(path_create_directory, uvwasi_fd_t fd, const char *path, uvwasi_size_t path_len);
U(path_filestat_get, uvwasi_fd_t fd, uvwasi_lookupflags_t flags, const char *path, uvwasi_size_t path_len, uvwasi_filestat_t *buf);
U(path_filestat_set_times, uvwasi_fd_t fd, uvwasi_lookupflags_t flags, const char *path, uvwasi_size_t path_len, uvwasi_timestamp_t st_atim, uvwasi_timestamp_t st_mtim, uvwasi_fstflags_t fst_flags);
U(path_link, uvwasi_fd_t old_fd, uvwasi_lookupflags_t old_flags, const char *old_path, uvwasi_size_t old_path_len, uvwasi_fd_t new_fd, const char *new_path, uvwasi_size_t new_path_len);
U(path_open, uvwasi_fd_t dirfd, uvwasi_lookupflags_t dirflags, const char *path, uvwasi_size_t path_len, uvwasi_oflags_t o_flags, uvwasi_rights_t fs_rights_base, uvwasi_rights_t fs_rights_inheriting, uvwasi_fdflags_t fs_flags, uvwasi_fd_t *fd);
U(path_readlink, uvwasi_fd_t fd, const char *path, uvwasi_size_t path_len, char *buf, uvwasi_size_t buf_len, uvwasi_size_t *bufused);
U(path_remove_directory, uvwasi_fd_t fd, const char *path, uvwasi_size_t path_len);
U(path_rename, uvwasi_fd_t old_fd, const char *old_path, uvwasi_size_t old_path_len, uvwasi_fd_t new_fd, const char *new_path, uvwasi_size_t new_path_len);
U(path_symlink, const char *old_path, uvwasi_size_t old_path_len, uvwasi_fd_t fd, const char *new_path, uvwasi_size_t new_path_len);
U(path_unlink_file, uvwasi_fd_t fd, const char *path, uvwasi_size_t path_len);
U(poll_oneoff, const uvwasi_subscription_t *in, uvwasi_event_t *out, uvwasi_size_t nsubscriptions, uvwasi_size_t *nevents);
U(proc_exit, uvwasi_exitcode_t rval);
U(proc_raise, uvwasi_signal_t sig);
U(random_get, void *buf, uvwasi_size_t buf_len);
U(sched_yield);
U(sock_accept, uvwasi_fd_t sock, uvwasi_fdflags_t flags, uvwasi_fd_t *fd);
U(sock_recv, uvwasi_fd_t sock, const uvwasi_iovec_t *ri_data, uvwasi_size_t ri_data_len, uvwasi_riflags_t ri_flags, uvwasi_size_t *ro_datalen, uvwasi_roflags_t *ro_flags);
U(sock_send, uvwasi_fd_t sock, const uvwasi_ciovec_t *si_data, uvwasi_size_t si_data_len, uvwasi_siflags_t si_flags, uvwasi_size_t *so_datalen);
U(sock_shutdown, uvwasi_fd_t sock, uvwasi_sdflags_t how);
#undef U
#endif
