#include "common.hpp"
static void put(OpDesc &d, int i, const FormInfo *f, bool w)
{
	if (!f) return;
	d.nobj = i + 1;
	d.ot[i] = ObjT{f->kind, f->s, f->r};
	d.nc[i] = f->n;
	for (int k = 0; k < f->n; ++k) d.comp[i][k] = f->idx[k];
	d.wr[i] = w;
}
static std::string nm_of(const FormInfo *f)
{
	std::string s = std::string(kind_name(f->kind)) + char('0' + f->s);
	if (f->kind == K_M) s += std::string("x") + char('0' + f->r);
	return s + f->acc;
}
void add_op(Registry &R, ST st, const char *nm, uint32_t flags, run_fn run, ref_fn ref,
			const FormInfo *f0, bool w0, const FormInfo *f1, bool w1, const FormInfo *f2, bool w2)
{
	OpDesc d;
	d.grp = nm;
	d.name = std::string(st_name(st)) + ":" + nm_of(f0) + " " + nm;
	if (f1) d.name += " " + nm_of(f1);
	if (f2) d.name += " " + nm_of(f2);
	d.st = st; d.flags = flags; d.loose = R.loose; d.run = run; d.ref = ref;
	put(d, 0, f0, w0); put(d, 1, f1, w1); put(d, 2, f2, w2);
	R.ops.push_back(d);
}

void sim_reg_loose(Registry *R, bool b) { R->loose = b; }
