// Building datasets for the drivers and recognising whether one was changed.
#pragma once
#include <sstream>
#include <ufjfmltk/core/Data.hpp>

namespace vt {
    template <class P> auto point(const std::vector<double> &x, double y, size_t id) {
        auto p = std::make_shared<P>(x.size());
        for (size_t k = 0; k < x.size(); k++) (*p)[k] = x[k];
        p->Y() = y;
        p->Id() = id;
        return p;
    }
    // points in the given order, with the given ids; xs is flattened
    inline mltk::Data<double> dataset(const std::vector<int> &ids, const std::vector<double> &ys, const std::vector<double> &xs, bool keep = true) {
        mltk::Data<double> d;
        size_t dim = ids.empty() ? 0 : xs.size() / ids.size();
        for (size_t i = 0; i < ids.size(); i++)
            d.insertPoint(point<mltk::Point<double>>(std::vector<double>(xs.begin() + i * dim, xs.begin() + (i + 1) * dim), ys[i], ids[i]), keep);
        return d;
    }
    template <class D> std::string fingerprint(const D &d) {
        std::ostringstream o;
        o.precision(17);
        o << d.size() << '/' << d.dim() << '/';
        for (size_t i = 0; i < d.size(); i++) {
            const auto &p = *d[i];
            o << d[i].get() << ':' << p.Id() << ':' << p.Y() << ':' << p.Alpha() << ':';
            for (auto v: p.X()) o << v << ',';
        }
        for (auto c: d.classes()) o << c << ';';
        for (auto c: d.classesDistribution()) o << c << ';';
        for (auto c: d.classesNames()) o << c << ';';
        for (auto c: d.getFeaturesNames()) o << c << ';';
        return o.str();
    }
}
