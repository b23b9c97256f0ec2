// Eigen 3.4 (the only Eigen available here) lacks SparseMatrix::setFromSortedTriplets, which the
// library under test calls in three translation units.  This plugin supplies it, so that the whole
// library can be compiled by the conformance harness.  Semantics: same as setFromTriplets.
template<typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin_iter, const InputIterators& end_iter) {
    this->setFromTriplets(begin_iter, end_iter);
}
