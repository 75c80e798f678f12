"""Compile-fail witnesses: programs the library's types have to refuse, each next to the right use it differs from."""
from concurrent.futures import ThreadPoolExecutor

import headers
from sa import prog as P

PRE = '''
#include <string>
#include <tuple>
#include <vector>
using namespace df;
struct Text { std::string s; };
struct Other : Decomposer {
    Strings names(const Dataframe &, uint32_t, const Serie &, const String &) const { return {}; }
    Serie serie(const Dataframe &, uint32_t, const String &) const { return Serie(); }
};
'''
ARGS = 'const Serie &s, const Serie &u, Serie &w, const Dataframe &f, Dataframe &g, const Array &a'

# name, declaration it concerns, right use, wrong use
W = [
    # a predicate answers yes or no
    ('filter: predicate of numbers gives no bool', 'functional/filter.h',
     '(void)filter([](double v, uint32_t) { return v > 0; }, s);', '(void)filter([](double v, uint32_t) { return Text{"x"}; }, s);'),
    ('filter: predicate of numbers gives a number', 'functional/filter.h',
     '(void)filter([](double v, uint32_t) { return v > 0; }, s);', '(void)filter([](double v, uint32_t) { return v; }, s);'),
    ('filter: predicate of arrays gives no bool', 'functional/filter.h',
     '(void)filter([](const Array &v, uint32_t) { return v[0] > 0; }, s);', '(void)filter([](const Array &v, uint32_t) { return v; }, s);'),
    ('make_filter: predicate gives a number', 'functional/filter.h',
     '(void)make_filter([](double v, uint32_t) { return v > 0; })(s);', '(void)make_filter([](double v, uint32_t) { return v; })(s);'),
    ('make_filterAll: predicate gives a number', 'functional/filter.h',
     '(void)make_filterAll([](const Array &x, const Array &y) { return x[0] > y[0]; })(s, u);',
     '(void)make_filterAll([](const Array &x, const Array &y) { return x[0]; })(s, u);'),
    ('reject: predicate of numbers gives a number', 'functional/utils/reject.h',
     '(void)utils::reject([](double v, uint32_t) { return v > 0; }, s);', '(void)utils::reject([](double v, uint32_t) { return v; }, s);'),
    ('reject: predicate of arrays gives no bool', 'functional/utils/reject.h',
     '(void)utils::reject([](const Array &v, uint32_t) { return v[0] > 0; }, s);',
     '(void)utils::reject([](const Array &v, uint32_t) { return v; }, s);'),
    ('make_rejectAll: predicate gives a number', 'functional/utils/reject.h',
     '(void)utils::make_rejectAll([](const Array &x, const Array &y) { return x[0] > y[0]; })(s, u);',
     '(void)utils::make_rejectAll([](const Array &x, const Array &y) { return x[0]; })(s, u);'),
    # everything that runs through several series gets series
    ('map: an argument that is no Serie', 'functional/map.h',
     '(void)map([](const Array &x, const Array &y, uint32_t) { return x; }, s, u);',
     '(void)map([](const Array &x, const Array &y, uint32_t) { return x; }, s, a);'),
    ('map: one argument that is no Serie', 'functional/map.h',
     '(void)map([](double v, uint32_t) { return v; }, s);', '(void)map([](double v, uint32_t) { return v; }, a);'),
    ('forEach: an argument that is no Serie', 'functional/forEach.h',
     'forEach([](const Array &x, const Array &y, uint32_t) {}, s, u);', 'forEach([](const Array &x, const Array &y, uint32_t) {}, s, a);'),
    ('forEach: callback of text', 'functional/forEach.h',
     'forEach([](double v, uint32_t) {}, s);', 'forEach([](const std::string &v, uint32_t) {}, s);'),
    ('filter: an argument that is no Serie', 'functional/filter.h',
     '(void)filter([](const Array &x, const Array &y, uint32_t) { return x[0] > y[0]; }, s, u);',
     '(void)filter([](const Array &x, const Array &y, uint32_t) { return x[0] > y[0]; }, s, a);'),
    ('filterAll: an argument that is no Serie', 'functional/filter.h',
     '(void)filterAll([](const Array &x, const Array &y) { return x[0] > y[0]; }, s, u);',
     '(void)filterAll([](const Array &x, const Array &y) { return x[0] > y[0]; }, s, a);'),
    ('filterAll: a single Serie', 'functional/filter.h',
     '(void)filterAll([](const Array &x, const Array &y) { return true; }, s, u);', '(void)filterAll([](const Array &x) { return true; }, s);'),
    ('rejectAll: a single Serie', 'functional/utils/reject.h',
     '(void)utils::rejectAll([](const Array &x, const Array &y) { return true; }, s, u);',
     '(void)utils::rejectAll([](const Array &x) { return true; }, s);'),
    ('rejectAll: an argument that is no Serie', 'functional/utils/reject.h',
     '(void)utils::rejectAll([](const Array &x, const Array &y) { return true; }, s, u);',
     '(void)utils::rejectAll([](const Array &x, const Array &y) { return true; }, s, a);'),
    ('zip: no Serie', 'functional/utils/zip.h', '(void)utils::zip(s);', '(void)utils::zip();'),
    ('zip: an argument that is no Serie', 'functional/utils/zip.h', '(void)utils::zip(s, u);', '(void)utils::zip(s, a);'),
    ('merge: an argument that is no Serie', 'functional/merge.h', '(void)merge(true, s, u);', '(void)merge(true, s, a);'),
    ('print: an argument that is no Serie', 'functional/utils/print.h', 'utils::print(s, u);', 'utils::print(s, a);'),
    ('add: a Serie and an Array', 'functional/math/add.h', '(void)math::add(s, u);', '(void)math::add(s, a);'),
    ('sub: a Serie and an Array', 'functional/math/sub.h', '(void)math::sub(s, u);', '(void)math::sub(s, a);'),
    # reduce: the callback goes with the kind of start
    ('make_reduce, a number: callback of arrays', 'functional/reduce.h',
     '(void)make_reduce([](double x, double v, uint32_t) { return x + v; }, 0.0)(s);',
     '(void)make_reduce([](const Array &x, const Array &v, uint32_t) { return x; }, 0.0)(s);'),
    ('make_reduce, an array: callback of numbers', 'functional/reduce.h',
     '(void)make_reduce([](const Array &x, const Array &v, uint32_t) { return x; }, Array{0})(s);',
     '(void)make_reduce([](double x, double v, uint32_t) { return x; }, Array{0})(s);'),
    ('reduce: a number to start arrays', 'functional/reduce.h',
     '(void)reduce([](const Array &x, const Array &v, uint32_t) { return x; }, s, Array{0});',
     '(void)reduce([](const Array &x, const Array &v, uint32_t) { return x; }, s, Text{"0"});'),
    # jobs, stages
    ('parallel_execute: a job that gives no Serie', 'functional/utils/parallel_execute.h',
     '(void)utils::parallel_execute([](const Serie &p) { return p; }, s, 2);',
     '(void)utils::parallel_execute([](const Serie &p) { return 1.0; }, s, 2);'),
    ('parallel_execute: a job that takes no Serie', 'functional/utils/parallel_execute.h',
     '(void)utils::parallel_execute([](const Serie &p) { return p; }, s, 2);',
     '(void)utils::parallel_execute([](const std::string &p) { return Serie(); }, s, 2);'),
    ('pipe: a stage that cannot take what the one before gives', 'functional/pipe.h',
     '(void)pipe(s, [](const Serie &x) { return x.count(); }, [](uint32_t n) { return n + 1; });',
     '(void)pipe(s, [](const Serie &x) { return Text{"x"}; }, [](uint32_t n) { return n + 1; });'),
    ('make_pipe: a stage that cannot take what the one before gives', 'functional/pipe.h',
     '(void)make_pipe([](const Serie &x) { return x.count(); }, [](uint32_t n) { return n + 1; })(s);',
     '(void)make_pipe([](const Serie &x) { return Text{"x"}; }, [](uint32_t n) { return n + 1; })(s);'),
    ('compose: functions in the wrong order', 'functional/utils/compose.h',
     '(void)utils::compose([](uint32_t n) { return n + 1; }, [](const Serie &x) { return x.count(); })(s);',
     '(void)utils::compose([](const Serie &x) { return x.count(); }, [](uint32_t n) { return n + 1; })(s);'),
    # what is const stays as it is
    ('Serie: set through const', 'Serie.h', 'w.set(0, a);', 's.set(0, a);'),
    ('Serie: set a number through const', 'Serie.h', 'w.set(0, 1.0);', 's.set(0, 1.0);'),
    ('Serie: setScalar through const', 'Serie.h', 'w.setScalar(0, 1.0);', 's.setScalar(0, 1.0);'),
    ('Serie: assigned through const', 'Serie.h', 'w = u;', 's = u;'),
    ('Serie: the numbers changed through const', 'Serie.h', '(void)s.asArray()[0];', 's.asArray()[0] = 1.0;'),
    ('Dataframe: add through const', 'Dataframe.h', 'g.add("x", s);', 'f.add("x", s);'),
    ('Dataframe: create through const', 'Dataframe.h', 'g.create("x", 1, 1);', 'f.create("x", 1, 1);'),
    ('Dataframe: del through const', 'Dataframe.h', 'g.del("x");', 'f.del("x");'),
    ('Dataframe: clear through const', 'Dataframe.h', 'g.clear();', 'f.clear();'),
    ('Dataframe: setCount through const', 'Dataframe.h', 'g.setCount(1);', 'f.setCount(1);'),
    ('Dataframe: a stored Serie replaced through const', 'Dataframe.h', 'g["x"] = s;', 'f["x"] = s;'),
    ('Dataframe: a stored Serie changed through const', 'Dataframe.h', 'g.get("x").set(0, 1.0);', 'f.get("x").set(0, 1.0);'),
    ('Dataframe: the store changed through const', 'Dataframe.h', '(void)f.series().size();', 'f.series().clear();'),
    # who owns the decomposers
    ('Manager: copied', 'attributes/Manager.h', 'Manager m(f, {});', 'Manager m(f, {}); Manager n(m);'),
    ('Manager: assigned', 'attributes/Manager.h', 'Manager m(f, {}), n(f, {});',
     'Manager m(f, {}), n(f, {}); n = m;'),
    ('Manager: given something that is no decomposer', 'attributes/Manager.h',
     'Manager m(f, {}); m.add(new Other());', 'Manager m(f, {}); m.add(new Text());'),
]


def unit(body):
    return headers.inc(headers.headers()) + PRE + 'void use(' + ARGS + ') {\n' + body + '\n}\n'


def check(prog, tier):
    vs = []
    with ThreadPoolExecutor(8) as ex:
        every = ex.submit(headers.accepts, unit('\n'.join('{ ' + w[2] + ' }' for w in W)))
        bad = [ex.submit(headers.accepts, unit('{ ' + w[3] + ' }')) for w in W]
        r = every.result()
        if r is not None:
            # which of them
            for w, x in zip(W, ex.map(lambda w: headers.accepts(unit('{ ' + w[2] + ' }')), W)):
                if x is not None:
                    vs.append({'key': '%s, right use' % w[0], 'what': '%s does not compile: %s' % (w[2], x[:300]),
                               'at': 'include/dataframe/' + w[1]})
        for w, b in zip(W, bad):
            if b.result() is None:
                vs.append({'key': w[0], 'what': '%s compiles' % w[3], 'at': 'include/dataframe/' + w[1]})
    return {'rule': 'misuse', 'instances': len(W),
            'summary': '%d wrong uses refused by the compiler, each next to a right use it accepts: %d violations' % (len(W), len(vs)),
            'witnesses': [{'name': w[0], 'header': w[1], 'right': w[2], 'wrong': w[3]} for w in W],
            'rule_applied': 'a translation unit with all public headers and the wrong use does not type-check; the same unit with the right '
                            'use does', 'violations': vs}
