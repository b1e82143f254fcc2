// Runs the cases of one property.
#include "prop.h"
#include <sys/resource.h>
#include <time.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char **argv) {
	if (getenv("ENCLOSE_IO_USE_ORIGINAL_RUBY")) { printf("again\n"); for (int i = 0; i < argc; ++i) printf("%s\n", argv[i]); return 0; } // started by the interception layer
	u64 stride = 1; double seconds = 1e9;
	for (int i = 1; i + 1 < argc; i += 2) {
		string k = argv[i], v = argv[i + 1];
		if (k == "--prop") opt.prop = v; else if (k == "--seed") opt.seed = strtoull(v.c_str(), 0, 0); else if (k == "--first") opt.first = strtoull(v.c_str(), 0, 0);
		else if (k == "--cases") opt.cases = strtoull(v.c_str(), 0, 0); else if (k == "--stride") stride = strtoull(v.c_str(), 0, 0); else if (k == "--seconds") seconds = atof(v.c_str());
		else if (k == "--thorough") opt.thorough = v == "1"; else if (k == "--scratch") opt.scratch = v; else harness_error("unknown option " + k);
	}
	printf("VF-START\n"); fflush(stdout);
	double end = now() + seconds;
	prop_init();
	u64 ran = 0;
	for (u64 i = 0; i < opt.cases && now() < end; ++i) {
		u64 c = opt.first + i * stride; Rng r(mix64(opt.seed) ^ mix64(c * 2 + 1) ^ fnvs(opt.prop));
		set_case(fmt("%s seed=%llu case=%llu", opt.prop.c_str(), (unsigned long long)opt.seed, (unsigned long long)c));
		prop_case(r, c); ++ran;
	}
	set_case(opt.prop + " exit");
	prop_done();
	count("cases", ran);
	print_results();
	return 0;
}
