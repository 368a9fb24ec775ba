// P23: the features tuner remembers exactly what it was told.
#include "tuner.hpp"

int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P23";
	c.rule = "random histories of ask, tell (batches, repeats, failures, invalid elements) and suggest against a naive Pareto archive; non-trivial: three evaluations or more recorded with at least one objective";
	c.assumptions = {"after an evaluation that cannot be compared has been told, only the stability and the mutual non-dominance of the optima are checked"};
	c.quick_cases    = 24000;
	c.thorough_cases = 500000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = [](Src &s) { tuner::body(s, B_FEVAL); };
	return pbt::run_main(argc, argv, c);
}
