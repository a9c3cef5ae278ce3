// Stream harness support
#pragma once
#include "lie.h"
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/schema.h>
#include <roughpy/streams/stream.h>
using namespace rpy::streams;
using intervals::DyadicInterval;
using intervals::IntervalType;
using intervals::RealInterval;
static inline StreamMetadata smd(const Alg& A, double lo, double hi, int res, VectorType vt = VectorType::Dense,
                                 IntervalType it = IntervalType::Clopen)
{
    return StreamMetadata{(deg_t) A.w, RealInterval(lo, hi, it), A.ctx, A.ct, vt, (resolution_t) res, it};
}
// does the log signature x (an object of B's context) denote log of `sig`
static inline void log_is(const Alg& B, const LieRef& R, const Lie& x, const Vec& sig, const char* label)
{
    if (!x.context()) {
        eqv(B.zero(), B.log(B.add(sig, B.one(), -1)), label);
        return;
    }
    eqv(R.expand(rdL(B, x)), B.log(B.add(sig, B.one(), -1)), label);
}
