#include "drv.h"
#include "common.h"
#include <sys/socket.h>
#include "blogc-runserver/httpd-utils.h"
#include "blogc-runserver/mime.h"
#include "common/utils.h"
static void handle(const char *cmd, int n, arg_t *a)
{
    if (handle_common(cmd, n, a)) return;
    if (!strcmp(cmd, "urldecode")) { char *r = br_urldecode(a[0].s); os(r); free(r); }
    else if (!strcmp(cmd, "hextoi")) { oi(br_hextoi((char) argi(&a[0]))); }
    else if (!strcmp(cmd, "ext")) { os(br_get_extension(a[0].s)); }
    else if (!strcmp(cmd, "mime")) { os(br_mime_guess_content_type(a[0].s)); }
    else if (!strcmp(cmd, "index")) { char *r = br_mime_guess_index(a[0].s); os(r); free(r); }
    else if (!strcmp(cmd, "readline")) {
        int fd[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, fd);
        if (write(fd[1], a[0].b, a[0].len) != (ssize_t) a[0].len) abort();
        shutdown(fd[1], SHUT_WR);
        char *r = br_readline(fd[0]); os(r); free(r); close(fd[0]); close(fd[1]);
    }
    else os("unknown command");
}
