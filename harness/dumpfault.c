// Dump() on streams whose writes fail at a byte position, permanently or once.   usage: dumpfault proof.txt cut...
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <poik.h>
struct st { size_t got, pos, cut; int once, fired; };
static ssize_t wr(void *c, const char *b, size_t n)
{
    struct st *s = c; (void)b;
    if (!(s->once && s->fired) && s->pos + n > s->cut) { s->fired = 1; errno = ENOSPC; if (s->pos < s->cut && !s->once) { size_t k = s->cut - s->pos; s->pos += k; s->got += k; return k; } return 0; }
    s->pos += n; s->got += n; return n;
}
int main(int argc, char **argv)
{
    struct proof *p = malloc(sizeof *p); FILE *f = fopen(argv[1], "r"); if (!f || !Parse(f, p)) return 3; fclose(f);
    for (int once = 0; once < 2; ++once) for (int buf = 0; buf < 2; ++buf) for (int i = 2; i < argc; ++i) {
        struct st s = {0, 0, (size_t)atol(argv[i]), once, 0};
        FILE *o = fopencookie(&s, "w", (cookie_io_functions_t){.write = wr}); if (!buf) setvbuf(o, NULL, _IONBF, 0);
        int ok = Dump(o, p); int late = fflush(o) != 0; late |= ferror(o) != 0; late |= fclose(o) != 0;
        printf("%s %s %zu %d %d %zu\n", once ? "transient" : "permanent", buf ? "buffered" : "unbuffered", s.cut, ok, late, s.got);
    }
}
