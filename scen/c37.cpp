// C37: the library behaves the same however it is compiled.
#include "both.hpp"
using namespace h;

SCENARIO(parsers, 100) {
    parser_case(c, rng);
}
SCENARIO(converters, 40) {
    converter_case(c, rng);
}
SCENARIO(typed, 100) {
    typed_case(c, rng);
}
