#pragma once
#include "solver.h"
double wallNow();
size_t dagSize(E e, size_t limit);
// Simplifies root, which is expected to be identically false.
E sweep(Solver & S, E root, double budget);
bool randomWitness(const std::vector<E> & cs, E c, size_t nvars, const Model & base, Model & out);
