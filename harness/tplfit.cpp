// C05: template fitting against a brute-force weighted least-squares reference.
#include "tfworld.h"

VH_CASE(fit, 3000, 60000) { fitCase(c, false); }
VH_CASE(bad_options, 60, 600) {
  World w = mk(c, false);
  c.nontrivial = true;
  COperatorTemplateFitting op(w.zs);
  w.igm = w.ism = false;
  CPriorHelper::TPriorZEList pr(w.zs.size() + c.r.i(1, 3));
  c.check(vh::throwsAmz([&] { run(op, w, pr); }), "prior-size-refused", "prior list of another size accepted");
  c.check(vh::throwsAmz([&] { op.Compute(w.tpl, 0, "", false, true, 0., {}, w.ne + c.r.i(0, 2), undefIdx); }), "dust-index-refused", "dust index outside the table accepted");
  CTemplate t("u", "galaxy", CSpectrumSpectralAxis(w.tl), CSpectrumFluxAxis(w.tf_));
  auto u = std::make_shared<CTemplate>(t);
  c.check(vh::throwsAmz([&] { op.Compute(u, 0, "", true, false); }), "missing-table-refused", "IGM without table accepted");
  c.check(vh::throwsAmz([&] { op.Compute(u, 0, "", false, true); }), "missing-table-refused", "dust without table accepted");
}
VH_MAIN
