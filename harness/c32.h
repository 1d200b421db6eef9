#ifndef C32_H
#define C32_H
#include "mon.h"
#include <serial/eoSerial.h>
namespace c32 {
// an element of a distributed table
struct Item : public eoserial::Persistent {
    long id = 0, round = 0, value = 0, count = 0;
    double x = 0;
    std::string text;
    std::vector<double> v;
    void work() { value = value * 3 + id; ++count; x = x * 1.5 + 1. / 3; text += "+"; for (auto& y : v) y = -y / 3; }
    void unpack(const eoserial::Object* o) override {
        eoserial::unpack(*o, "id", id);
        eoserial::unpack(*o, "round", round);
        eoserial::unpack(*o, "value", value);
        eoserial::unpack(*o, "count", count);
        eoserial::unpack(*o, "x", x);
        eoserial::unpack(*o, "text", text);
        v.clear();
        eoserial::unpackArray<std::vector<double>, eoserial::Array::UnpackAlgorithm>(*o, "v", v);
    }
    eoserial::Object* pack() const override {
        eoserial::Object* o = new eoserial::Object;
        o->add("id", eoserial::make(id));
        o->add("round", eoserial::make(round));
        o->add("value", eoserial::make(value));
        o->add("count", eoserial::make(count));
        o->add("x", eoserial::make(x));
        o->add("text", eoserial::make(text));
        o->add("v", eoserial::makeArray<std::vector<double>, eoserial::MakeAlgorithm>(v));
        return o;
    }
    static Item random(mon::Rand& r, bool big) {
        static const char A[] = "abc XYZ,;:{}[]019\n\t'/.";
        Item x;
        x.value = r.range(-1000, 1000);
        x.x = r.below(6) == 0 ? (double)r.range(-5, 5) : r.real(-10, 10) * std::pow(10., (double)r.range(-20, 20));
        for (long i = r.size(0, big ? 20000 : 30); i > 0; --i) x.text += A[r.below(sizeof A - 1)];
        for (long i = r.size(0, big ? 300 : 4); i > 0; --i) x.v.push_back(r.real(-3, 3));
        return x;
    }
    std::string differs(const Item& o) const {
        if (id != o.id) return mon::cat("element ", id, " in the place of ", o.id);
        if (count != o.count) return mon::cat("processed ", count, " times, expected ", o.count);
        if (round != o.round || value != o.value) return mon::cat("value ", value, ", expected ", o.value);
        if (text != o.text) return "text changed";
        if (x != o.x) { std::ostringstream s; s.precision(17); s << "real " << x << ", expected " << o.x; return s.str(); }
        if (v != o.v) return "vector changed";
        return "";
    }
};
struct Group : public eoserial::Persistent {
    std::vector<Item> items;
    void unpack(const eoserial::Object* o) override {
        items.clear();
        eoserial::unpackArray<std::vector<Item>, eoserial::Array::UnpackObjectAlgorithm>(*o, "items", items);
    }
    eoserial::Object* pack() const override {
        eoserial::Object* o = new eoserial::Object;
        o->add("items", eoserial::makeArray<std::vector<Item>, eoserial::SerializablePushAlgorithm>(items));
        return o;
    }
};
}
#endif
