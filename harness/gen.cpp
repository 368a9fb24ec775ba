#include "gen.hpp"
#include <algorithm>

using pbt::Discard;

const char *
rname(ccs_result_t r)
{
	const char *n = nullptr;
	if (r >= CCS_RESULT_MAX || r <= CCS_RESULT_MIN)
		return "?";
	if (ccs_get_result_name(r, &n) != CCS_RESULT_SUCCESS || !n) {
		ccs_clear_thread_error();
		return "?";
	}
	return n;
}
std::string
err_text(ccs_result_t r)
{
	std::string t = rname(r);
	ccs_error_stack_t es = ccs_get_thread_error();
	if (es) {
		const char *m = nullptr;
		if (ccs_error_stack_get_message(es, &m) == CCS_RESULT_SUCCESS && m)
			t += std::string(" (") + m + ")";
		ccs_release_object(es);
	}
	return t;
}
void
call_failed(const char *what, ccs_result_t r, const char *file, int line)
{
	fail("%s:%d %s failed: %s", file, line, what, err_text(r).c_str());
}
void
expect_err(const char *what, ccs_result_t r, ccs_result_t want, const char *file, int line)
{
	if (r != want) {
		std::string t = err_text(r);
		fail("%s:%d %s returned %s, %s was expected", file, line, what, t.c_str(),
		     rname(want));
	}
	ccs_clear_thread_error();
}

void
Pool::release_all()
{
	while (!objs.empty()) {
		ccs_object_t o = objs.back();
		objs.pop_back();
		ccs_release_object(o);
	}
	ccs_clear_thread_error();
}

// ---------------------------------------------------------------- values ----
const char *
intern(const std::string &s)
{
	static std::set<std::string> *pool = new std::set<std::string>();
	return pool->insert(s).first->c_str();
}
D
D::of(const ccs_datum_t &d)
{
	D r;
	r.t = d.type;
	switch (d.type) {
	case CCS_DATA_TYPE_INT:
		r.i = d.value.i;
		break;
	case CCS_DATA_TYPE_BOOL:
		r.i = d.value.i;
		break;
	case CCS_DATA_TYPE_FLOAT:
		r.f = d.value.f;
		break;
	case CCS_DATA_TYPE_STRING:
		if (d.value.s)
			r.s = d.value.s;
		else
			r.nul = true;
		break;
	case CCS_DATA_TYPE_OBJECT:
		r.o = d.value.o;
		break;
	default:
		break;
	}
	return r;
}
ccs_datum_t
D::ref() const
{
	ccs_datum_t d = ccs_none;
	d.type        = t;
	switch (t) {
	case CCS_DATA_TYPE_INT:
	case CCS_DATA_TYPE_BOOL:
		d.value.i = i;
		break;
	case CCS_DATA_TYPE_FLOAT:
		d.value.f = f;
		break;
	case CCS_DATA_TYPE_STRING:
		d.value.s = nul ? nullptr : s.c_str();
		break;
	case CCS_DATA_TYPE_OBJECT:
		d.value.o = o;
		break;
	default:
		break;
	}
	return d;
}
ccs_datum_t
D::stable() const
{
	ccs_datum_t d = ref();
	if (t == CCS_DATA_TYPE_STRING && !nul)
		d.value.s = intern(s);
	return d;
}
bool
D::operator==(const D &b) const
{
	if (t != b.t)
		return false;
	switch (t) {
	case CCS_DATA_TYPE_INT:
	case CCS_DATA_TYPE_BOOL:
		return i == b.i;
	case CCS_DATA_TYPE_FLOAT:
		return same_bits(f, b.f);
	case CCS_DATA_TYPE_STRING:
		return nul == b.nul && s == b.s;
	case CCS_DATA_TYPE_OBJECT:
		return o == b.o;
	default:
		return true;
	}
}
bool
D::operator<(const D &b) const
{
	if (t != b.t)
		return t < b.t;
	switch (t) {
	case CCS_DATA_TYPE_INT:
	case CCS_DATA_TYPE_BOOL:
		return i < b.i;
	case CCS_DATA_TYPE_FLOAT: {
		uint64_t x, y;
		memcpy(&x, &f, 8);
		memcpy(&y, &b.f, 8);
		return x < y;
	}
	case CCS_DATA_TYPE_STRING:
		return nul != b.nul ? nul : s < b.s;
	case CCS_DATA_TYPE_OBJECT:
		return o < b.o;
	default:
		return false;
	}
}
std::string
D::str() const
{
	switch (t) {
	case CCS_DATA_TYPE_NONE:
		return "none";
	case CCS_DATA_TYPE_INT:
		return sfmt("%lld", (long long)i);
	case CCS_DATA_TYPE_FLOAT:
		return sfmt("%.17g%s", f, std::floor(f) == f ? "f" : "");
	case CCS_DATA_TYPE_BOOL:
		return i ? "true" : "false";
	case CCS_DATA_TYPE_STRING:
		return nul ? "NULL" : "\"" + s + "\"";
	case CCS_DATA_TYPE_INACTIVE:
		return "inactive";
	case CCS_DATA_TYPE_OBJECT:
		return "object";
	default:
		return sfmt("type%d", (int)t);
	}
}
std::string
strv(const std::vector<D> &v)
{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++)
		r += (i ? ", " : "") + v[i].str();
	return r + "]";
}
D
gen_scalar(Src &s)
{
	switch (s.weighted({3, 3, 3, 1, 1})) {
	case 0:
		return D::I(s.chance(1, 3) ? s.i64() : s.small_int(5));
	case 1:
		return D::F(s.chance(1, 3) ? s.f64() : (double)s.small_int(8) / 2);
	case 2:
		return D::S(s.text(4));
	case 3:
		return D::B(s.coin());
	default:
		return D::none();
	}
}
TmpDatum::TmpDatum(const D &v, ccs_datum_flags_t flags)
{
	d       = v.ref();
	d.flags = flags;
	if (v.t == CCS_DATA_TYPE_STRING && !v.nul) {
		n = v.s.size() + 1;
		buf.reset(new char[n]);
		memcpy(buf.get(), v.s.c_str(), n);
		d.value.s = buf.get();
	}
}
TmpDatum::~TmpDatum()
{
	if (buf)
		memset(buf.get(), '#', n);
}
TmpStr::TmpStr(const std::string &s)
{
	n = s.size() + 1;
	buf.reset(new char[n]);
	memcpy(buf.get(), s.c_str(), n);
}
TmpStr::~TmpStr()
{
	memset(buf.get(), '#', n);
}
std::vector<D>
binding_values(ccs_binding_t c, size_t n)
{
	std::vector<ccs_datum_t> v(n + 1);
	size_t                   m = 0;
	OK(ccs_binding_get_values(c, n, n ? v.data() : nullptr, &m));
	CHECK(m == n, "binding reports %zu values, %zu expected", m, n);
	std::vector<D> r;
	for (size_t i = 0; i < n; i++)
		r.push_back(D::of(v[i]));
	return r;
}
std::vector<ccs_datum_t>
refs(const std::vector<D> &v)
{
	std::vector<ccs_datum_t> r;
	for (auto &d : v)
		r.push_back(d.ref());
	return r;
}
std::vector<ccs_datum_t>
stables(const std::vector<D> &v)
{
	std::vector<ccs_datum_t> r;
	for (auto &d : v)
		r.push_back(d.stable());
	return r;
}

// ------------------------------------------------------------ parameters ----
bool
Param::contains(const D &v) const
{
	switch (kind) {
	case INT:
		return v.t == CCS_DATA_TYPE_INT && v.i >= li && v.i < ui;
	case FLOAT:
		return v.t == CCS_DATA_TYPE_FLOAT && v.f >= lf && v.f < uf;
	case STR:
		return v.t == CCS_DATA_TYPE_STRING;
	default:
		return order(v) >= 0;
	}
}
int
Param::order(const D &v) const
{
	for (size_t k = 0; k < vals.size(); k++)
		if (vals[k] == v)
			return (int)k;
	return -1;
}
D
Param::defval() const
{
	switch (kind) {
	case INT:
		return D::I(di);
	case FLOAT:
		return D::F(df);
	case STR:
		return D::none();
	default:
		return vals[def];
	}
}
D
Param::gen_in(Src &s) const
{
	switch (kind) {
	case INT: {
		uint64_t span = (uint64_t)ui - (uint64_t)li;
		switch (s.weighted({4, 1, 1})) {
		case 0:
			return D::I((int64_t)((uint64_t)li + s.draw(span)));
		case 1:
			return D::I(li);
		default:
			return D::I(ui - 1);
		}
	}
	case FLOAT: {
		double v = lf;
		switch (s.weighted({4, 1, 1})) {
		case 0:
			v = lf + s.unit() * (uf - lf);
			break;
		case 1:
			v = lf;
			break;
		default:
			v = std::nextafter(uf, lf);
		}
		if (!(v >= lf && v < uf))
			v = lf;
		return D::F(v);
	}
	case STR:
		return D::S(s.text(5));
	default:
		return vals[s.draw(vals.size())];
	}
}
D
Param::gen_near(Src &s) const
{
	switch (s.weighted({5, 3, 2, 1, 1})) {
	case 0:
		return gen_in(s);
	case 1:
		switch (kind) {
		case INT: {
			int64_t c[] = {ui, li == INT64_MIN ? li : li - 1, ui - 1, li,
				       ui == INT64_MAX ? ui : ui + 1, INT64_MAX, INT64_MIN};
			return D::I(c[s.draw(7)]);
		}
		case FLOAT: {
			double c[] = {uf, std::nextafter(lf, -INFINITY), std::nextafter(uf, lf), lf,
				      std::nextafter(uf, INFINITY), INFINITY, -INFINITY, NAN};
			return D::F(c[s.draw(8)]);
		}
		default:
			if (!vals.empty()) {
				// right text or number, maybe the wrong type
				D v = vals[s.draw(vals.size())];
				if (v.t == CCS_DATA_TYPE_INT)
					return s.coin() ? D::F((double)v.i) : D::I(v.i + 1);
				if (v.t == CCS_DATA_TYPE_FLOAT)
					return s.coin() ? D::F(std::nextafter(v.f, 1e308)) :
							  D::F(-v.f);
				if (v.t == CCS_DATA_TYPE_STRING)
					return s.coin() ? D::S(v.s + "x") :
							  D::S(v.s.substr(0, v.s.size() / 2));
				if (v.t == CCS_DATA_TYPE_BOOL)
					return D::I(v.i);
			}
			return gen_scalar(s);
		}
	case 2: {
		// same numeric value in the other numeric type
		D v = gen_in(s);
		if (v.t == CCS_DATA_TYPE_INT)
			return D::F((double)v.i);
		if (v.t == CCS_DATA_TYPE_FLOAT && std::fabs(v.f) < 1e15)
			return D::I((int64_t)v.f);
		return gen_scalar(s);
	}
	case 3:
		return gen_scalar(s);
	default:
		return D::inactive();
	}
}
std::string
Param::str() const
{
	switch (kind) {
	case INT:
		return sfmt("%s:int[%lld,%lld[ q=%lld def=%lld", name.c_str(), (long long)li,
			    (long long)ui, (long long)qi, (long long)di);
	case FLOAT:
		return sfmt("%s:float[%.17g,%.17g[ q=%.17g def=%.17g", name.c_str(), lf, uf, qf, df);
	case STR:
		return name + ":string";
	default:
		return name + (kind == CAT ? ":categorical" : kind == ORD ? ":ordinal" : ":discrete") +
		       strv(vals) + sfmt(" def=#%zu", def);
	}
}
std::vector<D>
gen_values(Src &s, size_t n, bool numeric_only, bool none_ok)
{
	std::vector<D> r;
	bool homog = s.chance(1, 2);
	int  ty    = (int)s.draw(numeric_only ? 2 : 3);
	for (size_t k = 0; k < n; k++) {
		D v;
		if (numeric_only || homog) {
			int t2 = homog ? ty : (int)s.draw(2);
			v = t2 == 0 ? D::I(s.small_int(6)) :
			    t2 == 1 ? D::F((double)s.small_int(12) / 4) :
				      D::S(s.ident(3));
		} else {
			v = gen_scalar(s);
		}
		if (v.t == CCS_DATA_TYPE_NONE && !none_ok)
			v = D::B(s.coin());
		// keep values distinct
		int guard = 0;
		while (std::find(r.begin(), r.end(), v) != r.end()) {
			if (v.t == CCS_DATA_TYPE_INT)
				v.i++;
			else if (v.t == CCS_DATA_TYPE_FLOAT)
				v.f = std::floor(v.f) + 1.25 + guard;
			else if (v.t == CCS_DATA_TYPE_STRING)
				v.s += (char)('a' + guard % 26);
			else
				v = numeric_only ? D::I((int64_t)k + 100) : D::S(sfmt("v%zu", k));
			if (++guard > 60)
				v = D::I(1000 + (int64_t)k);
		}
		r.push_back(v);
	}
	return r;
}
Param
gen_param_model(Src &s, const std::string &name, const ParamOpts &o)
{
	Param            p;
	std::vector<int> kinds;
	if (o.num) {
		kinds.push_back(Param::INT);
		kinds.push_back(Param::FLOAT);
	}
	if (o.cat)
		kinds.push_back(Param::CAT);
	if (o.ord)
		kinds.push_back(Param::ORD);
	if (o.disc)
		kinds.push_back(Param::DISC);
	if (o.str)
		kinds.push_back(Param::STR);
	p.kind = (Param::Kind)s.pick(kinds);
	p.name = name;
	switch (p.kind) {
	case Param::INT: {
		if (o.wide && s.chance(1, 3)) {
			int64_t a = s.i64(), b = s.i64();
			if (a > b)
				std::swap(a, b);
			if (a == b) {
				if (b == INT64_MAX)
					a--;
				else
					b++;
			}
			p.li = a;
			p.ui = b;
		} else {
			p.li = s.small_int(10);
			p.ui = p.li + 1 + (int64_t)s.draw(12);
		}
		uint64_t span = (uint64_t)p.ui - (uint64_t)p.li;
		p.qi = s.chance(1, 3) ? (int64_t)std::min<uint64_t>(1 + s.draw(4), span) : 0;
		p.di = p.li + (int64_t)s.draw(span);
		break;
	}
	case Param::FLOAT: {
		if (o.wide && s.chance(1, 3)) {
			double a = s.f64(), b = s.f64();
			if (a > b)
				std::swap(a, b);
			if (!(a < b) || !std::isfinite(b - a)) {
				a = 0;
				b = 1;
			}
			p.lf = a;
			p.uf = b;
		} else {
			p.lf = (double)s.small_int(20) / 4;
			p.uf = p.lf + (double)(1 + s.draw(20)) / 4;
		}
		p.qf = s.chance(1, 3) ? (p.uf - p.lf) / (double)(1 + s.draw(8)) : 0.0;
		double d = p.lf + s.unit() * (p.uf - p.lf);
		p.df     = d >= p.lf && d < p.uf ? d : p.lf;
		break;
	}
	case Param::STR:
		break;
	default: {
		size_t nv = o.max_vals >= 5 && s.chance(1, 40) ? 8 + s.draw(60) : 1 + s.draw(o.max_vals);
		p.vals = gen_values(s, nv, p.kind == Param::DISC, o.none_vals);
		p.def  = s.draw(p.vals.size());
	}
	}
	return p;
}
void
build_param(Param &p, Pool &pool)
{
	ccs_parameter_t h = nullptr;
	TmpStr          nm(p.name);
	switch (p.kind) {
	case Param::INT:
		OK(ccs_create_numerical_parameter(nm, CCS_NUMERIC_TYPE_INT, NI(p.li), NI(p.ui),
						  NI(p.qi), NI(p.di), &h));
		break;
	case Param::FLOAT:
		OK(ccs_create_numerical_parameter(nm, CCS_NUMERIC_TYPE_FLOAT, NF(p.lf), NF(p.uf),
						  NF(p.qf), NF(p.df), &h));
		break;
	case Param::STR:
		OK(ccs_create_string_parameter(nm, &h));
		break;
	default: {
		std::vector<std::unique_ptr<TmpDatum>> tmp;
		std::vector<ccs_datum_t>               v;
		for (auto &x : p.vals) {
			tmp.emplace_back(new TmpDatum(x, CCS_DATUM_FLAG_DEFAULT));
			v.push_back(tmp.back()->d);
		}
		if (p.kind == Param::CAT)
			OK(ccs_create_categorical_parameter(nm, v.size(), v.data(), p.def, &h));
		else if (p.kind == Param::ORD)
			OK(ccs_create_ordinal_parameter(nm, v.size(), v.data(), p.def, &h));
		else
			OK(ccs_create_discrete_parameter(nm, v.size(), v.data(), p.def, &h));
	}
	}
	p.h = pool.add(h);
}
Param
gen_param(Src &s, Pool &pool, const std::string &name, const ParamOpts &o)
{
	Param p = gen_param_model(s, name, o);
	build_param(p, pool);
	s.log("parameter %s", p.str().c_str());
	return p;
}

// ----------------------------------------------------------- expressions ----
std::string
E::str(const std::vector<Param> &ps) const
{
	if (op == CCS_EXPRESSION_TYPE_LITERAL)
		return lit.str();
	if (op == CCS_EXPRESSION_TYPE_VARIABLE)
		return ps[(size_t)var].name;
	if (op == CCS_EXPRESSION_TYPE_LIST) {
		std::string r = "[";
		for (size_t i = 0; i < kids.size(); i++)
			r += (i ? ", " : "") + kids[i].str(ps);
		return r + "]";
	}
	static const char *sym[] = {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+",
				    "-",  "*",  "/",  "%",  "+", "-", "!",  "in"};
	const char *y = (int)op < 17 ? sym[op] : "?";
	if (kids.size() == 1)
		return std::string(y) + "(" + kids[0].str(ps) + ")";
	if (kids.size() == 2)
		return "(" + kids[0].str(ps) + " " + y + " " + kids[1].str(ps) + ")";
	return "?";
}
void
E::vars(std::set<int> &out) const
{
	if (op == CCS_EXPRESSION_TYPE_VARIABLE)
		out.insert(var);
	for (auto &k : kids)
		k.vars(out);
}
size_t
E::count() const
{
	size_t n = 1;
	for (auto &k : kids)
		n += k.count();
	return n;
}

namespace {
// a comparison with a variable only makes sense within the variable's domain
bool
var_accepts(const E &side, const D &other, const std::vector<Param> &ps)
{
	if (side.op != CCS_EXPRESSION_TYPE_VARIABLE)
		return true;
	const Param &p = ps[(size_t)side.var];
	switch (p.kind) {
	case Param::CAT:
	case Param::ORD:
		return p.contains(other);
	case Param::INT:
	case Param::FLOAT:
	case Param::DISC:
		return other.is_num();
	default:
		return true;
	}
}
// numeric comparison: -1 0 1
int
ncmp(const D &a, const D &b)
{
	if (a.t == CCS_DATA_TYPE_INT && b.t == CCS_DATA_TYPE_INT)
		return a.i < b.i ? -1 : a.i > b.i;
	double x = a.num(), y = b.num();
	return x < y ? -1 : x > y;
}
// comparable: sets eq; false if the types cannot be compared
bool
deq(const D &a, const D &b, bool *eq)
{
	if (a.is_num() && b.is_num()) {
		*eq = ncmp(a, b) == 0;
		return true;
	}
	if (a.t != b.t) {
		*eq = false;
		return false;
	}
	*eq = a == b;
	return true;
}
} // namespace

Ev
ref_eval(const E &e, const std::vector<Param> &ps, const std::vector<D> &vals)
{
	switch (e.op) {
	case CCS_EXPRESSION_TYPE_LITERAL:
		return Ev::of(e.lit);
	case CCS_EXPRESSION_TYPE_VARIABLE:
		return Ev::of(vals[(size_t)e.var]);
	case CCS_EXPRESSION_TYPE_LIST:
		return Ev::error();
	default:
		break;
	}
	auto isb = [](const D &d) { return d.t == CCS_DATA_TYPE_BOOL; };
	auto isx = [](const D &d) { return d.t == CCS_DATA_TYPE_INACTIVE; };
	if (e.op == CCS_EXPRESSION_TYPE_IN) {
		if (e.kids[1].op != CCS_EXPRESSION_TYPE_LIST)
			return Ev::error();
		Ev l = ref_eval(e.kids[0], ps, vals);
		if (l.err)
			return l;
		if (isx(l.v))
			return Ev::of(D::inactive());
		bool inact = false;
		for (auto &k : e.kids[1].kids) {
			Ev r = ref_eval(k, ps, vals);
			if (r.err)
				return r;
			if (isx(r.v)) {
				inact = true;
				continue;
			}
			if (!var_accepts(e.kids[0], r.v, ps))
				return Ev::error();
			bool eq;
			deq(l.v, r.v, &eq);
			if (eq)
				return Ev::of(D::B(true));
		}
		return Ev::of(inact ? D::inactive() : D::B(false));
	}
	Ev l = ref_eval(e.kids[0], ps, vals);
	if (l.err)
		return l;
	switch (e.op) {
	case CCS_EXPRESSION_TYPE_POSITIVE:
	case CCS_EXPRESSION_TYPE_NEGATIVE:
		if (isx(l.v))
			return l;
		if (!l.v.is_num())
			return Ev::error();
		if (e.op == CCS_EXPRESSION_TYPE_POSITIVE)
			return l;
		if (l.v.t == CCS_DATA_TYPE_INT)
			return Ev::of(D::I((int64_t)(0 - (uint64_t)l.v.i)));
		return Ev::of(D::F(-l.v.f));
	case CCS_EXPRESSION_TYPE_NOT:
		if (isx(l.v))
			return l;
		if (!isb(l.v))
			return Ev::error();
		return Ev::of(D::B(!l.v.i));
	default:
		break;
	}
	Ev r = ref_eval(e.kids[1], ps, vals);
	if (r.err)
		return r;
	switch (e.op) {
	case CCS_EXPRESSION_TYPE_OR:
		if ((!isb(l.v) && !isx(l.v)) || (!isb(r.v) && !isx(r.v)))
			return Ev::error();
		if ((isb(l.v) && l.v.i) || (isb(r.v) && r.v.i))
			return Ev::of(D::B(true));
		if (isx(l.v) || isx(r.v))
			return Ev::of(D::inactive());
		return Ev::of(D::B(false));
	case CCS_EXPRESSION_TYPE_AND:
		if (isx(l.v) || isx(r.v))
			return Ev::of(D::inactive());
		if (!isb(l.v) || !isb(r.v))
			return Ev::error();
		return Ev::of(D::B(l.v.i && r.v.i));
	case CCS_EXPRESSION_TYPE_EQUAL:
	case CCS_EXPRESSION_TYPE_NOT_EQUAL: {
		if (isx(l.v) || isx(r.v))
			return Ev::of(D::inactive());
		if (!var_accepts(e.kids[0], r.v, ps) || !var_accepts(e.kids[1], l.v, ps))
			return Ev::error();
		bool eq, cmp = deq(l.v, r.v, &eq);
		if (!cmp && e.kids[0].op != CCS_EXPRESSION_TYPE_VARIABLE &&
		    e.kids[1].op != CCS_EXPRESSION_TYPE_VARIABLE)
			return Ev::error();
		return Ev::of(D::B(eq == (e.op == CCS_EXPRESSION_TYPE_EQUAL)));
	}
	case CCS_EXPRESSION_TYPE_LESS:
	case CCS_EXPRESSION_TYPE_GREATER:
	case CCS_EXPRESSION_TYPE_LESS_OR_EQUAL:
	case CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL: {
		const Param *pl = e.kids[0].op == CCS_EXPRESSION_TYPE_VARIABLE ?
					  &ps[(size_t)e.kids[0].var] : nullptr;
		const Param *pr = e.kids[1].op == CCS_EXPRESSION_TYPE_VARIABLE ?
					  &ps[(size_t)e.kids[1].var] : nullptr;
		if ((pl && pl->kind == Param::CAT) || (pr && pr->kind == Param::CAT))
			return Ev::error();
		if (isx(l.v) || isx(r.v))
			return Ev::of(D::inactive());
		if (!var_accepts(e.kids[0], r.v, ps) || !var_accepts(e.kids[1], l.v, ps))
			return Ev::error();
		int          c;
		const Param *po = pl && pl->kind == Param::ORD ? pl :
				  pr && pr->kind == Param::ORD ? pr : nullptr;
		if (po) {
			int a = po->order(l.v), b = po->order(r.v);
			if (a < 0 || b < 0)
				return Ev::error();
			c = a < b ? -1 : a > b;
		} else if (l.v.is_num() && r.v.is_num()) {
			c = ncmp(l.v, r.v);
		} else if (l.v.t == CCS_DATA_TYPE_STRING && r.v.t == CCS_DATA_TYPE_STRING) {
			c = l.v.nul || r.v.nul ? (int)r.v.nul - (int)l.v.nul :
						 strcmp(l.v.s.c_str(), r.v.s.c_str());
		} else
			return Ev::error();
		switch (e.op) {
		case CCS_EXPRESSION_TYPE_LESS:
			return Ev::of(D::B(c < 0));
		case CCS_EXPRESSION_TYPE_GREATER:
			return Ev::of(D::B(c > 0));
		case CCS_EXPRESSION_TYPE_LESS_OR_EQUAL:
			return Ev::of(D::B(c <= 0));
		default:
			return Ev::of(D::B(c >= 0));
		}
	}
	default:
		break;
	}
	// arithmetic
	if (isx(l.v) || isx(r.v))
		return Ev::of(D::inactive());
	if (!l.v.is_num() || !r.v.is_num())
		return Ev::error();
	bool     ii = l.v.t == CCS_DATA_TYPE_INT && r.v.t == CCS_DATA_TYPE_INT;
	uint64_t a = (uint64_t)l.v.i, b = (uint64_t)r.v.i;
	double   x = l.v.num(), y = r.v.num();
	switch (e.op) {
	case CCS_EXPRESSION_TYPE_ADD:
		return Ev::of(ii ? D::I((int64_t)(a + b)) : D::F(x + y));
	case CCS_EXPRESSION_TYPE_SUBSTRACT:
		return Ev::of(ii ? D::I((int64_t)(a - b)) : D::F(x - y));
	case CCS_EXPRESSION_TYPE_MULTIPLY:
		return Ev::of(ii ? D::I((int64_t)(a * b)) : D::F(x * y));
	case CCS_EXPRESSION_TYPE_DIVIDE:
		if (ii ? r.v.i == 0 : y == 0.0)
			return Ev::error();
		if (ii && r.v.i == -1 && l.v.i == INT64_MIN)
			return Ev::error();
		return Ev::of(ii ? D::I(l.v.i / r.v.i) : D::F(x / y));
	case CCS_EXPRESSION_TYPE_MODULO:
		if (ii ? r.v.i == 0 : y == 0.0)
			return Ev::error();
		if (ii && r.v.i == -1)
			return Ev::of(D::I(0));
		return Ev::of(ii ? D::I(l.v.i % r.v.i) : D::F(std::fmod(x, y)));
	default:
		return Ev::error();
	}
}
bool
ref_true(const E &e, const std::vector<Param> &ps, const std::vector<D> &values, bool *err)
{
	Ev r = ref_eval(e, ps, values);
	if (err)
		*err = r.err;
	return !r.err && r.v.t == CCS_DATA_TYPE_BOOL && r.v.i;
}

ccs_expression_t
build_expr(const E &e, const std::vector<Param> &ps, Pool &pool, Src *s)
{
	ccs_expression_t x = nullptr;
	if (e.op == CCS_EXPRESSION_TYPE_LITERAL) {
		TmpDatum t(e.lit, CCS_DATUM_FLAG_DEFAULT);
		OK(ccs_create_literal(t.d, &x));
		return pool.add(x);
	}
	if (e.op == CCS_EXPRESSION_TYPE_VARIABLE) {
		OK(ccs_create_variable(ps[(size_t)e.var].h, &x));
		return pool.add(x);
	}
	std::vector<ccs_datum_t>               nodes;
	std::vector<std::unique_ptr<TmpDatum>> tmp;
	for (auto &k : e.kids) {
		if (s && k.op == CCS_EXPRESSION_TYPE_LITERAL && s->coin()) {
			tmp.emplace_back(new TmpDatum(k.lit, CCS_DATUM_FLAG_DEFAULT));
			nodes.push_back(tmp.back()->d);
		} else if (s && k.op == CCS_EXPRESSION_TYPE_VARIABLE && s->coin())
			nodes.push_back(ccs_object(ps[(size_t)k.var].h));
		else
			nodes.push_back(ccs_object(build_expr(k, ps, pool, s)));
	}
	if (s && nodes.size() == 1 && e.op != CCS_EXPRESSION_TYPE_LIST && s->coin())
		OK(ccs_create_unary_expression(e.op, nodes[0], &x));
	else if (s && nodes.size() == 2 && e.op != CCS_EXPRESSION_TYPE_LIST && s->coin())
		OK(ccs_create_binary_expression(e.op, nodes[0], nodes[1], &x));
	else
		OK(ccs_create_expression(e.op, nodes.size(), nodes.empty() ? nullptr : nodes.data(), &x));
	return pool.add(x);
}

static bool
numeric_param(const Param &p)
{
	return p.kind == Param::INT || p.kind == Param::FLOAT || p.kind == Param::DISC;
}
E
gen_num_expr(Src &s, const std::vector<Param> &ps, const std::vector<int> &allowed, int depth)
{
	std::vector<int> nv;
	for (int i : allowed)
		if (numeric_param(ps[(size_t)i]))
			nv.push_back(i);
	if (depth <= 0 || s.chance(1, 3)) {
		if (!nv.empty() && s.chance(2, 3))
			return E::V(s.pick(nv));
		return s.coin() ? E::L(D::I(s.small_int(6))) :
				  E::L(D::F((double)s.small_int(12) / 4));
	}
	auto sub = [&]() { return gen_num_expr(s, ps, allowed, depth - 1); };
	auto bin = [&](ccs_expression_type_t op) {
		E a = sub();
		E b = sub();
		return E::N(op, {a, b});
	};
	switch (s.weighted({3, 3, 2, 1, 1, 1, 1})) {
	case 0:
		return bin(CCS_EXPRESSION_TYPE_ADD);
	case 1:
		return bin(CCS_EXPRESSION_TYPE_SUBSTRACT);
	case 2:
		return bin(CCS_EXPRESSION_TYPE_MULTIPLY);
	case 3: { // constant, non-null divisors only: never fails to evaluate
		E a = sub();
		return E::N(CCS_EXPRESSION_TYPE_DIVIDE, {a, E::L(D::I(2 + (int64_t)s.draw(5)))});
	}
	case 4: {
		E a = sub();
		return E::N(CCS_EXPRESSION_TYPE_MODULO, {a, E::L(D::I(2 + (int64_t)s.draw(5)))});
	}
	case 5:
		return E::N(CCS_EXPRESSION_TYPE_NEGATIVE, {sub()});
	default:
		return E::N(CCS_EXPRESSION_TYPE_POSITIVE, {sub()});
	}
}
static const ccs_expression_type_t cmp_ops[] = {
	CCS_EXPRESSION_TYPE_EQUAL,	  CCS_EXPRESSION_TYPE_NOT_EQUAL,
	CCS_EXPRESSION_TYPE_LESS,	  CCS_EXPRESSION_TYPE_GREATER,
	CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL};
E
gen_var_cmp(Src &s, const std::vector<Param> &ps, int var)
{
	const Param &p       = ps[(size_t)var];
	bool         ordered = p.kind != Param::CAT;
	if (s.chance(1, 5)) {
		std::vector<E> l;
		size_t         n = s.chance(1, 8) ? 4 + s.draw(12) : s.draw(4);
		for (size_t i = 0; i < n; i++)
			l.push_back(E::L(p.gen_in(s)));
		return E::N(CCS_EXPRESSION_TYPE_IN, {E::V(var), E::N(CCS_EXPRESSION_TYPE_LIST, l)});
	}
	// an ordering only exists between numbers, strings, or through an ordinal
	ccs_expression_type_t op  = cmp_ops[s.draw(ordered ? 6 : 2)];
	E                     lit = E::L(p.gen_in(s));
	if (s.chance(1, 4))
		return E::N(op, {lit, E::V(var)});
	return E::N(op, {E::V(var), lit});
}
E
gen_bool_expr(Src &s, const std::vector<Param> &ps, const std::vector<int> &allowed, int depth)
{
	if (depth >= 2 && allowed.size() >= 4 && s.chance(1, 20)) { // about many of them
		std::vector<int> l = allowed;
		for (size_t i = l.size(); i > 1; i--)
			std::swap(l[i - 1], l[s.draw(i)]);
		l.resize(4 + s.draw(l.size() - 3));
		E e = gen_var_cmp(s, ps, l[0]);
		for (size_t i = 1; i < l.size(); i++)
			e = E::N(s.coin() ? CCS_EXPRESSION_TYPE_OR : CCS_EXPRESSION_TYPE_AND, {e, gen_var_cmp(s, ps, l[i])});
		return e;
	}
	if (depth <= 0 || s.chance(1, 3)) {
		if (!allowed.empty() && s.chance(9, 10))
			return gen_var_cmp(s, ps, s.pick(allowed));
		if (s.chance(1, 3))
			return E::L(D::B(s.coin()));
		ccs_expression_type_t op = cmp_ops[s.draw(6)];
		E a = gen_num_expr(s, ps, {}, 0);
		E b = gen_num_expr(s, ps, {}, 0);
		return E::N(op, {a, b});
	}
	switch (s.weighted({3, 3, 2, 2, 1})) {
	case 0: {
		E a = gen_bool_expr(s, ps, allowed, depth - 1);
		E b = gen_bool_expr(s, ps, allowed, depth - 1);
		return E::N(CCS_EXPRESSION_TYPE_OR, {a, b});
	}
	case 1: {
		E a = gen_bool_expr(s, ps, allowed, depth - 1);
		E b = gen_bool_expr(s, ps, allowed, depth - 1);
		return E::N(CCS_EXPRESSION_TYPE_AND, {a, b});
	}
	case 2:
		return E::N(CCS_EXPRESSION_TYPE_NOT, {gen_bool_expr(s, ps, allowed, depth - 1)});
	case 3: {
		ccs_expression_type_t op = cmp_ops[s.draw(6)];
		E a = gen_num_expr(s, ps, allowed, depth - 1);
		E b = gen_num_expr(s, ps, allowed, depth - 1);
		return E::N(op, {a, b});
	}
	default: {
		E              a = gen_num_expr(s, ps, allowed, depth - 1);
		std::vector<E> l;
		size_t         n = s.draw(4);
		for (size_t i = 0; i < n; i++)
			l.push_back(gen_num_expr(s, ps, allowed, depth - 1));
		return E::N(CCS_EXPRESSION_TYPE_IN, {a, E::N(CCS_EXPRESSION_TYPE_LIST, l)});
	}
	}
}
E
gen_any_expr(Src &s, const std::vector<Param> &ps, const std::vector<int> &allowed, int depth)
{
	if (depth <= 0 || s.chance(1, 4)) {
		if (!allowed.empty() && s.coin())
			return E::V(s.pick(allowed));
		if (!allowed.empty() && s.coin()) {
			// a value related to some parameter
			D v = ps[(size_t)s.pick(allowed)].gen_near(s);
			if (v.t != CCS_DATA_TYPE_INACTIVE && !(v.t == CCS_DATA_TYPE_FLOAT && std::isnan(v.f)))
				return E::L(v);
		}
		return E::L(gen_scalar(s));
	}
	if (s.chance(1, 3))
		return s.coin() ? gen_bool_expr(s, ps, allowed, depth - 1) :
				  gen_num_expr(s, ps, allowed, depth - 1);
	int op = (int)s.draw(18);
	E   e;
	e.op = (ccs_expression_type_t)op;
	size_t n;
	if (op == CCS_EXPRESSION_TYPE_LIST)
		n = s.draw(4);
	else if (op >= CCS_EXPRESSION_TYPE_POSITIVE && op <= CCS_EXPRESSION_TYPE_NOT)
		n = 1;
	else
		n = 2;
	for (size_t i = 0; i < n; i++) {
		if (op == CCS_EXPRESSION_TYPE_IN && i == 1 && s.chance(9, 10)) {
			std::vector<E> l;
			size_t         m = s.chance(1, 8) ? 5 + s.draw(12) : s.draw(5);
			for (size_t k = 0; k < m; k++)
				l.push_back(gen_any_expr(s, ps, allowed, depth - 2));
			e.kids.push_back(E::N(CCS_EXPRESSION_TYPE_LIST, l));
		} else
			e.kids.push_back(gen_any_expr(s, ps, allowed, depth - 1));
	}
	return e;
}

// --------------------------------------------------- configuration spaces ----
bool
CSpace::topo(std::vector<int> &order) const
{
	size_t                     n = ps.size();
	std::vector<std::set<int>> need(n);
	for (size_t i = 0; i < n; i++)
		if (cond[i])
			cond[i]->vars(need[i]);
	std::vector<bool> done(n, false);
	order.clear();
	for (size_t round = 0; round < n; round++) {
		bool any = false;
		for (size_t i = 0; i < n; i++) {
			if (done[i])
				continue;
			bool ready = true;
			for (int v : need[i])
				if (!done[(size_t)v])
					ready = false;
			if (ready) {
				done[i] = true;
				order.push_back((int)i);
				any = true;
			}
		}
		if (!any)
			break;
	}
	return order.size() == n;
}
bool
CSpace::would_cycle(int i, const E &e) const
{
	CSpace c = *this;
	c.cond[(size_t)i] = e;
	std::vector<int> o;
	return !c.topo(o);
}
bool
CSpace::forbidden(const std::vector<D> &v, bool *err) const
{
	bool f = false;
	for (auto &e : forb) {
		bool er = false;
		if (ref_true(e, ps, v, &er))
			f = true;
		if (er && err)
			*err = true;
	}
	return f;
}
CSpace::Verdict
CSpace::check(const std::vector<D> &v, std::string *why) const
{
	std::string w;
	if (!why)
		why = &w;
	bool err = false;
	if (v.size() != ps.size()) {
		*why = "wrong number of values";
		return INVALID;
	}
	bool inval = false;
	for (size_t i = 0; i < ps.size(); i++) {
		bool active = true;
		if (cond[i]) {
			bool er = false;
			active  = ref_true(*cond[i], ps, v, &er);
			if (er) {
				err  = true;
				*why = "condition of " + ps[i].name + " fails to evaluate";
			}
		}
		bool has = v[i].t != CCS_DATA_TYPE_INACTIVE;
		if (active != has) {
			*why  = ps[i].name + (active ? " is active but has no value" :
						       " is inactive but has a value");
			inval = true;
		} else if (active && !ps[i].contains(v[i])) {
			*why  = "value of " + ps[i].name + " is outside its domain";
			inval = true;
		}
	}
	bool fe = false;
	if (forbidden(v, &fe)) {
		*why  = "a forbidden clause holds";
		inval = true;
	}
	if (inval)
		return INVALID;
	if (err || fe)
		return ERROR;
	return VALID;
}
std::vector<D>
CSpace::settle(std::vector<D> v, bool *err) const
{
	std::vector<int> order;
	if (!topo(order)) {
		*err = true;
		return v;
	}
	for (int i : order)
		if (cond[(size_t)i]) {
			bool er = false;
			if (!ref_true(*cond[(size_t)i], ps, v, &er))
				v[(size_t)i] = D::inactive();
			if (er)
				*err = true;
		}
	return v;
}
std::vector<D>
CSpace::defaults(bool *err) const
{
	std::vector<D> v;
	for (auto &p : ps)
		v.push_back(p.defval());
	return settle(v, err);
}
std::string
CSpace::str() const
{
	std::string r;
	for (size_t i = 0; i < ps.size(); i++) {
		r += ps[i].str();
		if (cond[i])
			r += " if " + cond[i]->str(ps);
		r += "\n";
	}
	for (auto &f : forb)
		r += "forbid " + f.str(ps) + "\n";
	return r;
}
CSpace
gen_cspace(Src &s, Pool &pool, const CSOpts &o)
{
	CSpace c;
	OK(ccs_create_configuration_space(TmpStr("cs"), &c.h));
	pool.add(c.h);
	c.rng = make_rng(pool, s.draw(1000000));
	OK(ccs_configuration_space_set_rng(c.h, c.rng));
	size_t n = o.max_p >= 4 && s.chance(1, 40) ? o.max_p + 1 + s.draw(12) : s.size(o.min_p, o.max_p);
	std::vector<ccs_distribution_t> dhs;
	for (size_t i = 0; i < n; i++) {
		Param p = gen_param(s, pool, sfmt("p%zu", i), o.po);
		ccs_distribution_t dh = nullptr;
		c.dist.emplace_back();
		if (o.dists && s.chance(1, 3)) {
			Dist d;
			if (p.kind == Param::CAT || p.kind == Param::ORD || p.kind == Param::DISC) {
				d.kind = Dist::ROULETTE;
				for (size_t k = 0; k < p.vals.size(); k++)
					d.areas.push_back((double)(1 + s.draw(5)));
			} else {
				d.kind = Dist::UNIFORM;
				d.t = p.kind == Param::FLOAT ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
				int64_t a = (int64_t)s.draw(3), b = (int64_t)s.draw(3), w;
				if (__builtin_sub_overflow(p.li, a, &d.li))
					d.li = p.li;
				if (__builtin_add_overflow(p.ui, b, &d.ui))
					d.ui = p.ui;
				if (__builtin_sub_overflow(d.ui, d.li, &w)) {
					d.li = p.li;
					d.ui = p.ui;
				}
				d.lf = p.lf - (double)s.draw(3) / 2;
				d.uf = p.uf + (double)s.draw(3) / 2;
			}
			build_dist(d, pool);
			dh       = d.h;
			c.dist[i] = d;
			s.log("  with distribution %s", d.str().c_str());
		}
		dhs.push_back(dh);
		c.ps.push_back(p);
		c.cond.emplace_back();
		c.cond_h.push_back(nullptr);
	}
	// a random order of dependency, not the order of declaration
	std::vector<int> perm;
	for (size_t i = 0; i < n; i++)
		perm.push_back((int)i);
	for (size_t i = n; i > 1; i--) {
		size_t j = s.draw(i);
		std::swap(perm[i - 1], perm[j]);
	}
	std::vector<int> todo; // conditions still to be declared
	for (size_t k = 1; k < n; k++) {
		if ((int)s.draw(100) >= o.cond_pct)
			continue;
		int              i = perm[k];
		std::vector<int> allowed(perm.begin(), perm.begin() + (long)k);
		E e = o.safe || s.coin() ? gen_bool_expr(s, c.ps, allowed, o.expr_depth) :
					   gen_any_expr(s, c.ps, allowed, o.expr_depth);
		c.cond[(size_t)i] = e;
		todo.push_back(i);
	}
	// declarations in any order: a condition as soon as its parameters are
	// there, or later
	auto declare = [&](size_t present, bool all) {
		for (size_t tries = todo.size(); tries > 0 && !todo.empty(); tries--) {
			size_t        at = s.draw(todo.size());
			int           i  = todo[at];
			std::set<int> v;
			c.cond[(size_t)i]->vars(v);
			v.insert(i);
			if ((size_t)*v.rbegin() >= present || (!all && s.coin()))
				continue;
			ccs_expression_t x = build_expr(*c.cond[(size_t)i], c.ps, pool, &s);
			OK(ccs_configuration_space_set_condition(c.h, (size_t)i, x));
			c.cond_h[(size_t)i] = x;
			s.log("condition of %s: %s", c.ps[(size_t)i].name.c_str(),
			      c.cond[(size_t)i]->str(c.ps).c_str());
			todo.erase(todo.begin() + (long)at);
		}
	};
	bool mixed = s.coin();
	for (size_t i = 0; i < n; i++) {
		OK(ccs_configuration_space_add_parameter(c.h, c.ps[i].h, dhs[i]));
		if (mixed && i + 1 < n)
			declare(i + 1, false);
	}
	while (!todo.empty())
		declare(n, true);
	if (o.dists && n > 1 && s.chance(1, 3)) { // some of the distributions given together, in any order
		std::vector<ccs_distribution_t> ds;
		for (size_t i = 0; i < n; i++)
			c.joint.push_back(i);
		for (size_t i = n; i > 1; i--)
			std::swap(c.joint[i - 1], c.joint[s.draw(i)]);
		c.joint.resize(2 + s.draw(n - 1));
		for (size_t i : c.joint) {
			ccs_distribution_t d = dhs[i];
			if (!d) {
				OK(ccs_parameter_get_default_distribution(c.ps[i].h, &d));
				pool.add(d);
			}
			ds.push_back(d);
		}
		ccs_distribution_t m = nullptr;
		OK(ccs_create_multivariate_distribution(ds.size(), ds.data(), &m));
		pool.add(m);
		OK(ccs_configuration_space_set_distribution(c.h, m, c.joint.data()));
		s.log("joint distribution of %zu parameters", c.joint.size());
		s.label("joint distribution");
	}
	size_t nf = !o.max_forb ? 0 : o.max_forb >= 2 && s.chance(1, 30) ? 4 + s.draw(8) : s.draw(o.max_forb + 1);
	for (size_t k = 0; k < nf; k++) {
		std::vector<int> all;
		for (size_t i = 0; i < n; i++)
			all.push_back((int)i);
		E    e   = gen_bool_expr(s, c.ps, all, o.expr_depth);
		bool err = false, derr = false;
		std::vector<D> d = c.defaults(&derr);
		if (derr)
			break;
		if (ref_true(e, c.ps, d, &err)) {
			e = E::N(CCS_EXPRESSION_TYPE_NOT, {e});
			if (ref_true(e, c.ps, d, &err))
				continue;
		}
		if (err)
			continue;
		ccs_expression_t x = build_expr(e, c.ps, pool, &s);
		OK(ccs_configuration_space_add_forbidden_clause(c.h, x));
		c.forb.push_back(e);
		c.forb_h.push_back(x);
		s.log("forbidden: %s", e.str(c.ps).c_str());
	}
	return c;
}

// ---------------------------------------------------------- distributions ----
ccs_rng_t
make_rng(Pool &pool, uint64_t seed)
{
	ccs_rng_t r = nullptr;
	OK(ccs_create_rng(&r));
	pool.add(r);
	OK(ccs_rng_set_seed(r, seed));
	return r;
}
size_t
Dist::dim() const
{
	if (kind == MULTI) {
		size_t n = 0;
		for (auto &d : subs)
			n += d.dim();
		return n;
	}
	if (kind == MIXTURE)
		return subs[0].dim();
	return 1;
}
ccs_numeric_type_t
Dist::type_of(size_t k) const
{
	if (kind == MULTI) {
		for (auto &d : subs) {
			if (k < d.dim())
				return d.type_of(k);
			k -= d.dim();
		}
	}
	if (kind == MIXTURE)
		return subs[0].type_of(k);
	if (kind == ROULETTE)
		return CCS_NUMERIC_TYPE_INT;
	return t;
}
bool
Dist::in_support(size_t k, ccs_numeric_t v, std::string *why) const
{
	switch (kind) {
	case UNIFORM:
		if (t == CCS_NUMERIC_TYPE_INT) {
			if (v.i < li || v.i >= ui) {
				*why = sfmt("%lld outside [%lld, %lld[", (long long)v.i, (long long)li,
					    (long long)ui);
				return false;
			}
			if (qi && ((uint64_t)v.i - (uint64_t)li) % (uint64_t)qi != 0) {
				*why = sfmt("%lld is not on the grid %lld + k*%lld", (long long)v.i,
					    (long long)li, (long long)qi);
				return false;
			}
			return true;
		}
		if (!(v.f >= lf && v.f < uf)) {
			*why = sfmt("%.17g outside [%.17g, %.17g[", v.f, lf, uf);
			return false;
		}
		if (qf > 0) {
			double n = std::nearbyint((v.f - lf) / qf);
			double g = lf + n * qf;
			double tol = 1e-9 * (std::fabs(v.f) + std::fabs(lf) + qf);
			if (std::fabs(g - v.f) > tol) {
				*why = sfmt("%.17g is not on the grid %.17g + k*%.17g", v.f, lf, qf);
				return false;
			}
		}
		return true;
	case NORMAL:
		if (t == CCS_NUMERIC_TYPE_INT) {
			if (scale == CCS_SCALE_TYPE_LOGARITHMIC && v.i < 1) {
				*why = sfmt("%lld is not positive", (long long)v.i);
				return false;
			}
			if (qi && v.i % qi != 0) {
				*why = sfmt("%lld is not a multiple of %lld", (long long)v.i, (long long)qi);
				return false;
			}
			return true;
		}
		if (std::isnan(v.f)) {
			*why = "NaN";
			return false;
		}
		if (scale == CCS_SCALE_TYPE_LOGARITHMIC && !(v.f > 0)) {
			*why = sfmt("%.17g is not positive", v.f);
			return false;
		}
		if (qf > 0) {
			double n = std::nearbyint(v.f / qf);
			if (std::fabs(n * qf - v.f) > 1e-9 * (std::fabs(v.f) + qf)) {
				*why = sfmt("%.17g is not a multiple of %.17g", v.f, qf);
				return false;
			}
		}
		return true;
	case ROULETTE:
		if (v.i < 0 || (size_t)v.i >= areas.size()) {
			*why = sfmt("index %lld of %zu areas", (long long)v.i, areas.size());
			return false;
		}
		if (areas[(size_t)v.i] == 0) {
			*why = sfmt("area %lld is empty", (long long)v.i);
			return false;
		}
		return true;
	case MIXTURE: {
		std::string w;
		for (size_t i = 0; i < subs.size(); i++)
			if (areas[i] > 0 && subs[i].in_support(k, v, &w))
				return true;
		*why = "no component of the mixture produces it: " + w;
		return false;
	}
	case MULTI:
		for (auto &d : subs) {
			if (k < d.dim())
				return d.in_support(k, v, why);
			k -= d.dim();
		}
		*why = "component out of range";
		return false;
	}
	return false;
}
std::string
Dist::str() const
{
	const char *sc = scale == CCS_SCALE_TYPE_LINEAR ? "linear" : "log";
	switch (kind) {
	case UNIFORM:
		if (t == CCS_NUMERIC_TYPE_INT)
			return sfmt("uniform int [%lld,%lld[ %s q=%lld", (long long)li, (long long)ui,
				    sc, (long long)qi);
		return sfmt("uniform float [%.17g,%.17g[ %s q=%.17g", lf, uf, sc, qf);
	case NORMAL:
		if (t == CCS_NUMERIC_TYPE_INT)
			return sfmt("normal int mu=%g sigma=%g %s q=%lld", mu, sigma, sc, (long long)qi);
		return sfmt("normal float mu=%g sigma=%g %s q=%.17g", mu, sigma, sc, qf);
	case ROULETTE: {
		std::string r = "roulette(";
		for (size_t i = 0; i < areas.size(); i++)
			r += sfmt("%s%g", i ? ", " : "", areas[i]);
		return r + ")";
	}
	case MIXTURE: {
		std::string r = "mixture(";
		for (size_t i = 0; i < subs.size(); i++)
			r += sfmt("%s%g*", i ? ", " : "", areas[i]) + subs[i].str();
		return r + ")";
	}
	default: {
		std::string r = "multivariate(";
		for (size_t i = 0; i < subs.size(); i++)
			r += (i ? ", " : "") + subs[i].str();
		return r + ")";
	}
	}
}
bool
Dist::row_in_support(const ccs_numeric_t *v) const
{
	if (kind == MIXTURE) {
		for (size_t i = 0; i < subs.size(); i++)
			if (areas[i] > 0 && subs[i].row_in_support(v))
				return true;
		return false;
	}
	if (kind == MULTI) {
		for (auto &d : subs) {
			if (!d.row_in_support(v))
				return false;
			v += d.dim();
		}
		return true;
	}
	std::string why;
	return in_support(0, *v, &why);
}
Dist
gen_uniform(Src &s, bool is_int, bool wide)
{
	Dist d;
	d.kind  = Dist::UNIFORM;
	d.t     = is_int ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
	d.scale = s.chance(1, 3) ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	bool lg = d.scale == CCS_SCALE_TYPE_LOGARITHMIC;
	if (is_int) {
		if (wide && s.chance(1, 4)) {
			int64_t a = s.i64(), b = s.i64();
			if (lg) {
				a = a == INT64_MIN ? INT64_MAX : std::llabs(a);
				b = b == INT64_MIN ? INT64_MAX : std::llabs(b);
				a = std::max<int64_t>(a, 1);
				b = std::max<int64_t>(b, 1);
			}
			if (a > b)
				std::swap(a, b);
			if (a == b) {
				if (b == INT64_MAX)
					a--;
				else
					b++;
			}
			d.li = a;
			d.ui = b;
		} else {
			d.li = lg ? 1 + (int64_t)s.draw(20) : s.small_int(20);
			d.ui = d.li + 1 + (int64_t)s.draw(30);
		}
		uint64_t span = (uint64_t)d.ui - (uint64_t)d.li;
		if (s.chance(2, 5))
			d.qi = (int64_t)(s.chance(1, 6) ? 1 + s.draw(std::min<uint64_t>(span, INT64_MAX)) :
							  std::min<uint64_t>(1 + s.draw(7), span));
	} else {
		if (wide && s.chance(1, 4)) {
			double a = s.f64(), b = s.f64();
			if (lg) {
				a = std::fabs(a);
				b = std::fabs(b);
				if (a == 0)
					a = 0.5;
				if (b == 0)
					b = 0.5;
			}
			if (a > b)
				std::swap(a, b);
			if (!(a < b) || !std::isfinite(b - a)) {
				a = 1;
				b = 2;
			}
			d.lf = a;
			d.uf = b;
		} else if (wide && s.chance(1, 8)) {
			// only a few representable values in the range
			double a = std::ldexp(1.0, (int)s.range(-3, 60));
			double b = a;
			size_t k = 1 + s.draw(4);
			for (size_t i = 0; i < k; i++)
				b = std::nextafter(b, INFINITY);
			d.lf = a;
			d.uf = b;
		} else {
			d.lf = lg ? (double)(1 + s.draw(20)) / 4 : (double)s.small_int(20) / 4;
			d.uf = d.lf + (double)(1 + s.draw(40)) / 8;
		}
		double span = d.uf - d.lf;
		if (s.chance(2, 5)) {
			d.qf = s.coin() ? span / (double)(1 + s.draw(9)) : span * (s.unit() * 0.99 + 0.01);
			if (d.qf > span || !(d.qf > 0))
				d.qf = span;
			// grids finer than the spacing of floats are meaningless
			if (d.qf < 1e-6 * (std::fabs(d.lf) + std::fabs(d.uf)))
				d.qf = 0;
		}
	}
	return d;
}
Dist
gen_normal(Src &s, bool is_int, bool wide)
{
	Dist d;
	d.kind  = Dist::NORMAL;
	d.t     = is_int ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
	d.scale = s.chance(1, 3) ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	bool lg = d.scale == CCS_SCALE_TYPE_LOGARITHMIC;
	d.mu    = lg ? (double)s.range(0, 12) / 4 : (double)s.small_int(40) / 4;
	d.sigma = (double)(1 + s.draw(lg ? 6 : 40)) / 4;
	if (s.chance(2, 5)) {
		d.qi = 1 + (int64_t)s.draw(5);
		d.qf = (double)(1 + s.draw(16)) / 8;
	}
	if (lg && (d.qi || d.qf > 0) && s.chance(1, 3)) // most of the law is below the first grid value
		d.mu = std::log((is_int ? (double)d.qi : d.qf) / 2) - d.sigma * (double)s.draw(13) / 4;
	if (wide && s.chance(1, 3)) {
		// means next to the ends of the representable range, means far
		// below the first positive grid value
		if (lg) {
			d.mu = s.coin() ? -(double)s.range(0, 400) / 8 :
					  (is_int ? 43.0 : 300.0) * s.unit();
			d.sigma = s.coin() ? std::ldexp(1.0, -(int)s.draw(30)) : 0.5 + s.unit();
		} else {
			double m = is_int ? 9223372036854775807.0 : 1e100;
			d.mu     = s.coin() ? (s.coin() ? m : -m) * (1.0 - s.unit() * std::ldexp(1.0, -(int)s.draw(60))) :
					      m * (2 * s.unit() - 1);
			d.sigma  = m * std::ldexp(0.5 + s.unit(), -(int)s.range(3, 60));
		}
		if (d.qi && s.coin())
			d.qi = 1 + (int64_t)(s.draw((uint64_t)INT64_MAX / 2) >> s.draw(60));
		if (lg && is_int && d.qi && std::log((double)d.qi) > d.mu + 3)
			d.qi = 1 + (int64_t)s.draw(40);
		if (d.qf > 0 && s.coin())
			d.qf = std::ldexp(d.qf, (int)s.range(-40, 40));
	}
	if (is_int)
		d.qf = 0;
	else
		d.qi = 0;
	return d;
}
static void share_sub(Src &s, Dist &d);
Dist
gen_dist1(Src &s, int depth, const DistOpts &o, int want)
{
	bool is_int = want < 0 ? s.coin() : want == CCS_NUMERIC_TYPE_INT;
	int  k = (int)s.weighted({5, o.normal ? 2 : 0, (is_int && o.comps) ? 3 : 0,
				  (depth > 0 && o.comps) ? 2 : 0});
	switch (k) {
	case 0:
		return gen_uniform(s, is_int, o.wide);
	case 1:
		return gen_normal(s, is_int, o.wide);
	case 2: {
		Dist d;
		d.kind   = Dist::ROULETTE;
		size_t n = s.chance(1, 20) ? 7 + s.draw(60) : 1 + s.draw(6);
		bool   nz = false;
		for (size_t i = 0; i < n; i++) {
			double a = s.chance(1, 5) ? 0.0 : s.coin() ? (double)(1 + s.draw(8)) : s.unit() * 3;
			if (a > 0)
				nz = true;
			d.areas.push_back(a);
		}
		if (!nz)
			d.areas[s.draw(n)] = 1.0;
		return d;
	}
	default: {
		Dist d;
		d.kind   = Dist::MIXTURE;
		size_t n = 1 + (s.chance(1, 4) ? s.draw(7) : s.draw(3));
		bool   nz = false;
		for (size_t i = 0; i < n; i++) {
			d.subs.push_back(gen_dist1(s, depth - 1, o,
						   is_int ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT));
			double a = s.chance(1, 6) ? 0.0 : s.chance(1, 4) ? s.unit() + 1e-3 : (double)(1 + s.draw(8));
			if (a > 0)
				nz = true;
			d.areas.push_back(a);
		}
		if (!nz)
			d.areas[0] = 1.0;
		share_sub(s, d);
		return d;
	}
	}
}
// one distribution object used for two components
static void
share_sub(Src &s, Dist &d)
{
	if (d.subs.size() < 2 || !s.chance(1, 5))
		return;
	size_t j = 1 + s.draw(d.subs.size() - 1), i = s.draw(j);
	if (d.subs[i].dim() != d.subs[j].dim())
		return;
	for (size_t k = 0; k < d.subs[i].dim(); k++)
		if (d.subs[i].type_of(k) != d.subs[j].type_of(k))
			return;
	d.subs[j]      = d.subs[i];
	d.subs[j].same = (int)i;
	s.label("component used twice");
}
static Dist
gen_shape(Src &s, int depth, const DistOpts &o, const std::vector<ccs_numeric_type_t> &ts)
{
	// a distribution with exactly these component types
	if (ts.size() == 1)
		return gen_dist1(s, depth, o, ts[0]);
	if (depth > 0 && s.chance(1, 3)) {
		Dist d;
		d.kind   = Dist::MIXTURE;
		size_t n = 1 + (s.chance(1, 4) ? s.draw(7) : s.draw(3));
		bool   nz = false;
		for (size_t i = 0; i < n; i++) {
			d.subs.push_back(gen_shape(s, depth - 1, o, ts));
			double a = s.chance(1, 6) ? 0.0 : s.chance(1, 4) ? s.unit() + 1e-3 : (double)(1 + s.draw(8));
			if (a > 0)
				nz = true;
			d.areas.push_back(a);
		}
		if (!nz)
			d.areas[0] = 1.0;
		share_sub(s, d);
		return d;
	}
	Dist d;
	d.kind   = Dist::MULTI;
	size_t i = 0;
	while (i < ts.size()) {
		size_t left = ts.size() - i;
		size_t k    = (depth > 0 && left > 1) ? 1 + s.draw(std::min<size_t>(left, s.chance(1, 3) ? 5 : 2)) : 1;
		if (k == ts.size())
			k = 1;
		d.subs.push_back(gen_shape(
			s, depth - 1, o,
			std::vector<ccs_numeric_type_t>(ts.begin() + (long)i, ts.begin() + (long)(i + k))));
		i += k;
	}
	share_sub(s, d);
	return d;
}
Dist
gen_dist(Src &s, int depth, const DistOpts &o)
{
	if (!o.comps || s.chance(1, 2))
		return gen_dist1(s, depth, o);
	std::vector<ccs_numeric_type_t> ts;
	size_t                          n = s.chance(1, 12) ? 5 + s.draw(8) : 1 + s.draw(4);
	for (size_t i = 0; i < n; i++)
		ts.push_back(s.coin() ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT);
	if (n == 1) {
		Dist d;
		d.kind = Dist::MULTI;
		d.subs.push_back(gen_dist1(s, depth, o, ts[0]));
		return d;
	}
	return gen_shape(s, depth, o, ts);
}
void
build_dist(Dist &d, Pool &pool)
{
	ccs_distribution_t h = nullptr;
	switch (d.kind) {
	case Dist::UNIFORM:
		if (d.t == CCS_NUMERIC_TYPE_INT)
			OK(ccs_create_uniform_distribution(d.t, NI(d.li), NI(d.ui), d.scale, NI(d.qi), &h));
		else
			OK(ccs_create_uniform_distribution(d.t, NF(d.lf), NF(d.uf), d.scale, NF(d.qf), &h));
		break;
	case Dist::NORMAL:
		OK(ccs_create_normal_distribution(d.t, d.mu, d.sigma, d.scale,
						  d.t == CCS_NUMERIC_TYPE_INT ? NI(d.qi) : NF(d.qf), &h));
		break;
	case Dist::ROULETTE: {
		std::vector<double> a = d.areas;
		OK(ccs_create_roulette_distribution(a.size(), a.data(), &h));
		break;
	}
	case Dist::MIXTURE:
	case Dist::MULTI: {
		std::vector<ccs_distribution_t> hs;
		for (auto &x : d.subs) {
			if (x.same >= 0) {
				int k  = x.same;
				x      = Dist(d.subs[(size_t)k]);
				x.same = k;
			} else
				build_dist(x, pool);
			hs.push_back(x.h);
		}
		if (d.kind == Dist::MIXTURE) {
			std::vector<double> a = d.areas;
			OK(ccs_create_mixture_distribution(hs.size(), hs.data(), a.data(), &h));
		} else
			OK(ccs_create_multivariate_distribution(hs.size(), hs.data(), &h));
		break;
	}
	}
	d.h = pool.add(h);
}
