// C03 for very long streams, built without sanitizers.
#include "lib.hpp"
#include "eng_stream.hpp"
namespace stream {
#include "longvec.inc"
}
int main(int argc, char **argv) {
	std::vector<sim::Prop> t = {{"C03", stream::genLong, stream::execLong, 400}};
	return sim::simMain(argc, argv, t);
}
