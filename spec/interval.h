// Reference model: set operations on intervals (P08) and free segments (P07).
#pragma once
#include "hrm/datastructure/Interval.h"
#include <algorithm>
#include <limits>

namespace spec {
using hrm::Interval;

inline bool byStart(const Interval& a, const Interval& b) { return a.s() < b.s(); }

// sweep over the intervals ordered by start, extending or opening a block
inline std::vector<Interval> unions(const std::vector<Interval>& ins) {
    std::vector<Interval> res;
    if (ins.size() == 0) {
        return res;
    }
    std::vector<Interval> sorted = ins;
    std::sort(sorted.begin(), sorted.end(), byStart);
    res.push_back(sorted[0]);
    for (size_t i = 0; i < sorted.size(); ++i) {
        if (sorted[i].s() > res.back().e()) {
            res.push_back(sorted[i]);
        } else if (sorted[i].e() > res.back().e()) {
            res.back().setEnd(sorted[i].e());
        }
    }
    return res;
}

inline std::vector<Interval> intersects(const std::vector<Interval>& ins) {
    std::vector<Interval> res;
    if (ins.empty()) {
        return res;
    }
    double s = ins[0].s();
    double e = ins[0].e();
    for (size_t i = 1; i < ins.size(); ++i) {
        s = std::max(s, ins[i].s());
        e = std::min(e, ins[i].e());
    }
    if (s <= e) {
        res.emplace_back(s, e);
    }
    return res;
}

// outer minus disjoint inner intervals: gaps before, between and after
inline std::vector<Interval> complements(const std::vector<Interval>& outer, const std::vector<Interval>& inner) {
    std::vector<Interval> res;
    if (outer.empty()) {
        return res;
    }
    if (inner.empty()) {
        return outer;
    }
    std::vector<Interval> in = inner;
    std::sort(in.begin(), in.end(), byStart);
    const double inf = std::numeric_limits<double>::max();
    std::vector<Interval> gaps;
    gaps.push_back(Interval(-inf, in.front().s()));
    for (size_t i = 0; i + 1 < in.size(); ++i) {
        gaps.push_back(Interval(in[i].e(), in[i + 1].s()));
    }
    gaps.push_back(Interval(in.back().e(), inf));
    for (size_t i = 0; i < gaps.size(); ++i) {
        const double s = std::max(gaps[i].s(), outer[0].s());
        const double e = std::min(gaps[i].e(), outer[0].e());
        if (s <= e) {
            res.push_back(Interval(s, e));
        }
    }
    return res;
}
}  // namespace spec
