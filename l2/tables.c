/* Reads plugin tables through the C header: tables SO sym:kind .. */
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include "sudo_plugin.h"
#define S(f) printf("slot %s %s %d\n", sym, #f, p->f != NULL ? 1 : 0);
/* the test plugin reports to the driver; nothing is called here */
__attribute__((visibility("default"))) int verif_cb(const char *n, const unsigned char *b, size_t l) { return 0; }
int main(int argc, char **argv) {
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    if (argc > 2 && !strcmp(argv[2], "--versions")) {
        unsigned (*f)(unsigned, unsigned, unsigned) = (void *)dlsym(h, "verif_sys");
        if (!f) return 2;
        unsigned x = 1, bad = 0, n = 0;
        for (unsigned i = 0; i < 1500000 && bad < 5; i++) {
            unsigned w = i < 70000 ? i : i < 140000 ? (i - 70000) << 16 | (i & 0xff) : i < 200000 ? 0xffffffffu - (i - 140000) : (x = x * 1664525u + 1013904223u);
            unsigned mj = f(1, w, 0), mn = f(2, w, 0);
            n++;
            if (mj != SUDO_API_VERSION_GET_MAJOR(w)) { printf("bad major %u = %u\n", w, mj); bad++; }
            if (mn != SUDO_API_VERSION_GET_MINOR(w)) { printf("bad minor %u = %u\n", w, mn); bad++; }
            if (f(0, w >> 16, w & 0xffff) != w) { printf("bad join %u = %u\n", w, f(0, w >> 16, w & 0xffff)); bad++; }
        }
        printf("versions %u bad %u api %u\n", n, bad, f(3, 0, 0));
        return 0;
    }
    for (int i = 2; i < argc; i++) {
        char *sym = strdup(argv[i]), *kind = strchr(sym, ':');
        *kind++ = 0;
        void *t = dlsym(h, sym);
        if (!t) { printf("missing %s\n", sym); continue; }
        unsigned *u = t;
        printf("table %s type=%u version=%u\n", sym, u[0], u[1]);
        if (!strcmp(kind, "io")) { struct io_plugin *p = t;
            S(open) S(close) S(show_version) S(log_ttyin) S(log_ttyout) S(log_stdin) S(log_stdout) S(log_stderr)
            S(register_hooks) S(deregister_hooks) S(change_winsize) S(log_suspend) S(event_alloc) }
        if (!strcmp(kind, "policy")) { struct policy_plugin *p = t;
            S(open) S(close) S(show_version) S(check_policy) S(list) S(validate) S(invalidate) S(init_session)
            S(register_hooks) S(deregister_hooks) S(event_alloc) }
        if (!strcmp(kind, "audit")) { struct audit_plugin *p = t;
            S(open) S(close) S(accept) S(reject) S(error) S(show_version) S(register_hooks) S(deregister_hooks) S(event_alloc) }
        if (!strcmp(kind, "approval")) { struct approval_plugin *p = t; S(open) S(close) S(check) S(show_version) }
    }
    return 0;
}
