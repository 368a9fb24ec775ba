// P10: parameters accept exactly their domain and report their declaration.
#include "gen.hpp"

static bool
is_bool(ccs_bool_t b)
{
	return b == CCS_TRUE || b == CCS_FALSE;
}
static void
check_decl(const Param &p)
{
	ccs_parameter_type_t t;
	OK(ccs_parameter_get_type(p.h, &t));
	const char *nm = nullptr;
	OK(ccs_parameter_get_name(p.h, &nm));
	CHECK(nm && p.name == nm, "name is %s instead of %s", nm, p.name.c_str());
	ccs_datum_t dv;
	OK(ccs_parameter_get_default_value(p.h, &dv));
	CHECK(D::of(dv) == p.defval(), "default value %s instead of %s", D::of(dv).str().c_str(),
	      p.defval().str().c_str());
	ccs_interval_t iv;
	switch (p.kind) {
	case Param::INT:
	case Param::FLOAT: {
		CHECK(t == CCS_PARAMETER_TYPE_NUMERICAL, "type");
		ccs_numeric_type_t nt;
		ccs_numeric_t      l, u, q;
		OK(ccs_numerical_parameter_get_properties(p.h, &nt, &l, &u, &q));
		OK(ccs_parameter_sampling_interval(p.h, &iv));
		CHECK(iv.type == nt && iv.lower.i == l.i && iv.upper.i == u.i && iv.lower_included == CCS_TRUE &&
			      iv.upper_included == CCS_FALSE,
		      "sampling interval");
		if (p.kind == Param::INT)
			CHECK(nt == CCS_NUMERIC_TYPE_INT && l.i == p.li && u.i == p.ui && q.i == p.qi,
			      "properties of %s", p.str().c_str());
		else
			CHECK(nt == CCS_NUMERIC_TYPE_FLOAT && same_bits(l.f, p.lf) && same_bits(u.f, p.uf) &&
				      same_bits(q.f, p.qf),
			      "properties of %s", p.str().c_str());
		break;
	}
	case Param::STR:
		CHECK(t == CCS_PARAMETER_TYPE_STRING, "type");
		break;
	default: {
		CHECK(t == (p.kind == Param::CAT ? CCS_PARAMETER_TYPE_CATEGORICAL :
			    p.kind == Param::ORD ? CCS_PARAMETER_TYPE_ORDINAL :
						   CCS_PARAMETER_TYPE_DISCRETE),
		      "type");
		OK(ccs_parameter_sampling_interval(p.h, &iv));
		CHECK(iv.type == CCS_NUMERIC_TYPE_INT && iv.lower.i == 0 && iv.lower_included == CCS_TRUE &&
			      iv.upper.i + (iv.upper_included ? 1 : 0) == (int64_t)p.vals.size(),
		      "sampling interval");
		auto get = p.kind == Param::CAT ? ccs_categorical_parameter_get_values :
			   p.kind == Param::ORD ? ccs_ordinal_parameter_get_values :
						  ccs_discrete_parameter_get_values;
		size_t n = 0;
		OK(get(p.h, 0, NULL, &n));
		CHECK(n == p.vals.size(), "%zu values", n);
		std::vector<ccs_datum_t> v(n + 2, ccs_int(4242));
		n = 0;
		OK(get(p.h, v.size(), v.data(), &n));
		CHECK(n == p.vals.size(), "%zu values", n);
		for (size_t i = 0; i < n; i++)
			CHECK(D::of(v[i]) == p.vals[i], "value %zu is %s", i, D::of(v[i]).str().c_str());
		CHECK(v[n].type == CCS_DATA_TYPE_NONE && v[n + 1].type == CCS_DATA_TYPE_NONE,
		      "values past the last one are %s", D::of(v[n]).str().c_str());
		std::vector<ccs_datum_t> w(n);
		OK(get(p.h, n, w.data(), NULL));
		if (n > 1)
			ANYERR(get(p.h, n - 1, w.data(), NULL));
	}
	}
}
// a declaration that must be refused, derived from p; false when p has none of the kind asked
static bool
refused(Src &s, const Param &p)
{
	ccs_parameter_t h = (ccs_parameter_t)0x5a5a;
	TmpStr          nm(p.name);
	switch (p.kind) {
	case Param::INT: {
		int64_t l = p.li, u = p.ui, q = p.qi, d = p.di;
		switch (s.draw(7)) {
		case 0: u = l; d = l; q = 0; break;
		case 1: std::swap(l, u); d = l; q = 0; break;
		case 2: d = u; break;
		case 3: if (l == INT64_MIN) return false; d = l - 1; break;
		case 4: q = -1 - (int64_t)s.draw(5); break;
		case 5: if ((uint64_t)u - (uint64_t)l >= INT64_MAX) return false; q = u - l + 1; break;
		default: if (u == INT64_MAX) return false; d = u + 1; break;
		}
		s.log("refused int [%lld,%lld[ q=%lld def=%lld\n", (long long)l, (long long)u, (long long)q,
		      (long long)d);
		if (s.coin())
			ERR(ccs_create_numerical_parameter(nm, CCS_NUMERIC_TYPE_INT, NI(l), NI(u), NI(q), NI(d), &h),
			    CCS_RESULT_ERROR_INVALID_VALUE);
		else
			ERR(ccs_create_int_numerical_parameter(nm, l, u, q, d, &h), CCS_RESULT_ERROR_INVALID_VALUE);
		break;
	}
	case Param::FLOAT: {
		double l = p.lf, u = p.uf, q = p.qf, d = p.df;
		switch (s.draw(9)) {
		case 0: u = l; d = l; q = 0; break;
		case 1: std::swap(l, u); d = l; q = 0; break;
		case 2: d = u; break;
		case 3: d = std::nextafter(l, -INFINITY); if (d == -INFINITY) return false; break;
		case 4: q = -0.5; break;
		case 5: q = std::nextafter(u - l, INFINITY); if (!std::isfinite(q)) return false; break;
		case 6: d = NAN; break;
		case 7: l = NAN; break;
		default: u = NAN; break;
		}
		s.log("refused float [%.17g,%.17g[ q=%.17g def=%.17g\n", l, u, q, d);
		if (s.coin())
			ERR(ccs_create_numerical_parameter(nm, CCS_NUMERIC_TYPE_FLOAT, NF(l), NF(u), NF(q), NF(d), &h),
			    CCS_RESULT_ERROR_INVALID_VALUE);
		else
			ERR(ccs_create_float_numerical_parameter(nm, l, u, q, d, &h),
			    CCS_RESULT_ERROR_INVALID_VALUE);
		break;
	}
	case Param::STR:
		return false;
	default: {
		std::vector<D> v   = p.vals;
		size_t         def = p.def;
		bool           nul = false;
		switch (s.draw(5)) {
		case 0: { // repeated value, in its own storage
			D x = v[s.draw(v.size())];
			v.insert(v.begin() + (long)s.draw(v.size() + 1), x);
			break;
		}
		case 1:
			def = v.size() + s.draw(3);
			break;
		case 2: // a type that cannot be a value
			if (p.kind == Param::DISC)
				v[s.draw(v.size())] = s.coin() ? D::S("1") : s.coin() ? D::B(true) : D::none();
			else
				v[s.draw(v.size())] = D::inactive();
			break;
		case 3:
			if (p.kind == Param::DISC)
				return false;
			nul = true;
			v.push_back(D::S(""));
			break;
		default:
			v.clear();
			def = 0;
		}
		s.log("refused values %s def %zu\n", strv(v).c_str(), def);
		std::vector<std::unique_ptr<TmpDatum>> tmp;
		std::vector<ccs_datum_t>               dv;
		for (auto &x : v) {
			tmp.emplace_back(new TmpDatum(x, CCS_DATUM_FLAG_DEFAULT));
			dv.push_back(tmp.back()->d);
		}
		if (nul)
			dv.back().value.s = NULL;
		auto mk = p.kind == Param::CAT ? ccs_create_categorical_parameter :
			  p.kind == Param::ORD ? ccs_create_ordinal_parameter :
						 ccs_create_discrete_parameter;
		ERR(mk(nm, dv.size(), dv.empty() ? NULL : dv.data(), def, &h), CCS_RESULT_ERROR_INVALID_VALUE);
	}
	}
	CHECK(h == (ccs_parameter_t)0x5a5a, "a refused declaration wrote its result");
	return true;
}
static void
body(Src &s)
{
	Pool      pool;
	ParamOpts o;
	o.str = o.wide = o.none_vals = true;
	o.max_vals = s.chance(1, 8) ? 60 : 7;
	Param p = gen_param(s, pool, s.text(s.chance(1, 10) ? 40 : 6), o);
	check_decl(p);
	if (s.chance(1, 2))
		s.label_if(refused(s, p), "refused declaration");

	// values, one at a time and in batches
	size_t         n = 1 + s.draw(8);
	std::vector<D> vs;
	size_t         in = 0;
	for (size_t i = 0; i < n; i++) {
		D v = p.gen_near(s);
		if (p.kind == Param::STR && s.chance(1, 8))
			v.t = CCS_DATA_TYPE_STRING, v.s = "", v.nul = true;
		vs.push_back(v);
		in += p.contains(v);
	}
	s.log("%s\nvalues %s\n", p.str().c_str(), strv(vs).c_str());
	std::vector<ccs_bool_t>  res(n + 1, 77), res2(n + 1, 77);
	std::vector<ccs_datum_t> own(n + 1, ccs_int(4242));
	{
		std::vector<std::unique_ptr<TmpDatum>> tmp;
		std::vector<ccs_datum_t>               dv;
		for (auto &x : vs) {
			tmp.emplace_back(new TmpDatum(
				x, s.coin() ? CCS_DATUM_FLAG_TRANSIENT : CCS_DATUM_FLAG_DEFAULT));
			dv.push_back(tmp.back()->d);
		}
		std::vector<ccs_datum_t> dv0 = dv;
		OK(ccs_parameter_check_values(p.h, n, dv.data(), res.data()));
		OK(ccs_parameter_validate_values(p.h, n, dv.data(), own.data(), res2.data()));
		CHECK(memcmp(dv.data(), dv0.data(), n * sizeof(ccs_datum_t)) == 0, "the caller's values were changed");
		for (size_t i = 0; i < n; i++) {
			ccs_bool_t  r1 = 77, r2 = 77;
			ccs_datum_t o1 = ccs_int(4242);
			OK(ccs_parameter_check_value(p.h, dv[i], &r1));
			CHECK(is_bool(r1) && (r1 == CCS_TRUE) == p.contains(vs[i]), "value %s reported %s",
			      vs[i].str().c_str(), r1 ? "valid" : "invalid");
			OK(ccs_parameter_validate_value(p.h, dv[i], &o1, &r2));
			CHECK(r2 == r1, "validate and check differ on %s", vs[i].str().c_str());
			if (r1)
				CHECK(D::of(o1) == vs[i], "validated copy of %s is %s", vs[i].str().c_str(),
				      D::of(o1).str().c_str());
			else
				CHECK(o1.type == CCS_DATA_TYPE_INACTIVE, "validated copy of an invalid value is %s",
				      D::of(o1).str().c_str());
		}
	}
	// the caller's strings are gone
	for (size_t i = 0; i < n; i++) {
		bool want = p.contains(vs[i]);
		CHECK(is_bool(res[i]) && (res[i] == CCS_TRUE) == want, "batch: value %s reported %s",
		      vs[i].str().c_str(), res[i] ? "valid" : "invalid");
		CHECK(res2[i] == res[i], "batch: validate and check differ on %s", vs[i].str().c_str());
		if (want)
			CHECK(D::of(own[i]) == vs[i], "kept copy of %s is %s", vs[i].str().c_str(),
			      D::of(own[i]).str().c_str());
		else
			CHECK(own[i].type == CCS_DATA_TYPE_INACTIVE, "copy of the invalid %s is %s",
			      vs[i].str().c_str(), D::of(own[i]).str().c_str());
	}
	CHECK(res[n] == 77 && res2[n] == 77 && own[n].type == CCS_DATA_TYPE_INT && own[n].value.i == 4242,
	      "written past the end");
	// ordinal order
	if (p.kind == Param::ORD)
		for (int k = 0; k < 3; k++) {
			D        a = s.chance(1, 5) ? p.gen_near(s) : p.gen_in(s);
			D        b = s.chance(1, 5) ? p.gen_near(s) : p.gen_in(s);
			TmpDatum ta(a, CCS_DATUM_FLAG_DEFAULT), tb(b, CCS_DATUM_FLAG_DEFAULT);
			int      x = p.order(a), y = p.order(b);
			ccs_int_t c = 77;
			if (x < 0 || y < 0)
				ERR(ccs_ordinal_parameter_compare_values(p.h, ta.d, tb.d, &c),
				    CCS_RESULT_ERROR_INVALID_VALUE);
			else {
				OK(ccs_ordinal_parameter_compare_values(p.h, ta.d, tb.d, &c));
				int want = x < y ? -1 : x > y;
				CHECK(c == want, "%s compared to %s gives %lld", a.str().c_str(), b.str().c_str(),
				      (long long)c);
			}
		}
	check_decl(p); // nothing changed
	s.nontrivial(in > 0 && in < n);
	s.feature(pbt::hstr(p.str()));
	s.label_if(p.kind == Param::STR, "string");
	s.label_if(p.kind == Param::ORD, "ordinal");
	s.label_if(p.kind == Param::FLOAT, "float");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P10";
	c.rule = "a random parameter and a batch of values around its domain; non-trivial: the batch has both members and non members";
	c.assumptions = {"the width of numerical ranges is representable", "listed floats are compared bit for bit, as documented"};
	c.quick_cases    = 90000;
	c.thorough_cases = 4000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 500;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
