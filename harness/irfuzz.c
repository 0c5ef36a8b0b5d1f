/* irfuzz run <profile> <seed> <start> <ms> <progress>   generate, compile, run, compare until the time is over
   irfuzz dump <profile> <seed> <case>                    write the program of one case
   irfuzz replay <file>                                   run one program from a file
   exit: 0 fine, 10 mismatch (message on stdout), 12 hang, 3 invalid program, signal: crash */
#include "gen.h"

static prog P; static vst *GS;
static int make_case(const profile *pr, u64 seed, u64 n) { int r, t = 0; do { rseed(seed, n * 131 + (u64)t); r = gen_prog(&P, pr, GS); } while (r < 0 && ++t < 20); return r < 0 ? -1 : r; }
static const profile *find_profile(const char *s) { int k; for (k = 0; k < NPROFILES; k++) if (!strcmp(profiles[k].name, s)) return &profiles[k]; fprintf(stderr, "INFRA: profile\n"); exit(99); }

int main(int argc, char **argv)
{
	setvbuf(stdout, NULL, _IOLBF, 0);
	core_init(); alloc_states(); GS = st_new();
	if (argc < 2) return 99;
	make_qc();
	if (!strcmp(argv[1], "run") && argc >= 7) {
		const profile *pr = find_profile(argv[2]); u64 seed = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), end, stop = stop_at();
		progress_open(argv[6]);
		end = now_ms() + strtoull(argv[5], NULL, 10);
		for (; now_ms() < end && n <= stop; n++) {
			int nt, r, k; u64 h = 14695981039346656037ull;
			pg->cur = n; pg->phase = 0;
			if (n % 16 == 0) arm_watchdog(20);
			nt = make_case(pr, seed, n);
			if (nt < 0) { pg->skipped++; continue; }
			pg->cases++; pg->instrs += (u64)P.n;
			for (k = 0; k < P.n; k++) { h = fnv(h, &P.i[k], sizeof(ins)); pg->extra[P.i[k].k]++; }
			if (nt > 0 && dset_add(h)) pg->nontriv++;
			r = run_prog(&P, 1);
			if (r == RC_INVALID) { fprintf(stderr, "INFRA: generator made an invalid program: case %llu %s\n", (unsigned long long)n, failmsg); return 99; }
			if (r == RC_FAIL) { printf("MISMATCH case=%llu %s\n", (unsigned long long)n, failmsg); return 10; }
		}
		return 0;
	}
	if (!strcmp(argv[1], "asm") && argc >= 4) { /* debugging aid: writes the machine code to a file */
		FILE *f = fopen(argv[2], "r"); struct sljit_compiler *c = sljit_create_compiler(NULL); emitctx e; void *code;
		if (!f || prog_read(&P, f)) return 3;
		fclose(f);
		if (prepare(&P) != RC_OK || emit_prog(c, &P, VS1, &e) || !(code = sljit_generate_code(c, 0, NULL))) { printf("%s\n", failmsg); return 3; }
		f = fopen(argv[3], "w"); fwrite((void*)((uw)code & ~(uw)1), 1, sljit_get_generated_code_size(c), f); fclose(f);
		return 0;
	}
	if (!strcmp(argv[1], "dump") && argc >= 5) {
		int nt = make_case(find_profile(argv[2]), strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10));
		if (nt < 0) return 3;
		prog_write(&P, stdout, "");
		return 0;
	}
	if (!strcmp(argv[1], "replay") && argc >= 3) {
		FILE *f = fopen(argv[2], "r"); int r;
		if (!f || prog_read(&P, f)) { printf("INVALID unreadable\n"); return 3; }
		fclose(f);
		if (P.sc < 0 || P.sc > NREGS || P.sv < 0 || P.sc + P.sv > NREGS || P.locals < 0 || P.locals > MAXLOC) { printf("INVALID context\n"); return 3; }
		if (prog_static_ok(&P) || prog_flags_ok(&P)) { printf("INVALID %s\n", ub); return 3; }
		arm_watchdog(20);
		r = run_prog(&P, 1);
		if (r == RC_INVALID) { printf("INVALID %s\n", failmsg); return 3; }
		if (r == RC_FAIL) { printf("MISMATCH %s\n", failmsg); return 10; }
		printf("OK\n");
		return 0;
	}
	return 99;
}
