#include "mc.hpp"
int main(int argc, char **argv) { return mc::mainEntry(argc, argv); }
