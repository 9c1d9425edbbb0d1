/* native half of vf.h: tape reader and verdicts */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE *tape;
static unsigned long long rnd;
static int random_mode;

int
vf_is_random(void)
{
    return random_mode;
}

unsigned long
vf_nd(void)
{
    unsigned long v = 0;

    if (random_mode) {
        rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
        switch (rnd >> 61) {
        case 0: return (rnd >> 20) & 3;
        case 1: return (rnd >> 20) & 0xff;
        case 2: return 0;
        default: return (unsigned long) (rnd * 2685821657736338717ULL);
        }
    }

    if (tape && fscanf(tape, "%lu", &v) != 1) {
        v = 0;
    }

    return v;
}

void
vf_fail(const char *name, const char *file, int line)
{
    printf("VF-FAIL %s (%s:%d)\n", name, file, line);
    fflush(stdout);
    _Exit(3);
}

void
vf_infeasible(void)
{
    printf("VF-INFEASIBLE\n");
    fflush(stdout);
    _Exit(4);
}

void
vf_reached(const char *name)
{
    printf("VF-REACHED %s\n", name);
}

extern void VF_ENTRY(void);

int
main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IOLBF, 0);

    if (argc > 2 && strcmp(argv[1], "--random") == 0) {
        random_mode = 1;
        rnd = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    } else if (argc > 1) {
        tape = fopen(argv[1], "r");
        if (tape == NULL) {
            return 2;
        }
    }

    VF_ENTRY();
    printf("VF-OK\n");
    return 0;
}
