// MON-REG
// P03: files written by earlier versions of a class still give the object they were saved from. The old layouts are written by stand-ins here.
#include "serial.h"
#include "dist_pool.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include <cereal/types/base_class.hpp>
using namespace siren; namespace dc = siren::dataclasses; using mon::close; using mon::seen; using mon::Rng;
struct OldRecord { dc::InteractionRecord const & q; template<class A> void serialize(A & a, std::uint32_t const) { auto & k = const_cast<dc::InteractionRecord &>(q); a(cereal::make_nvp("InteractionSignature", k.signature)); a(cereal::make_nvp("PrimaryID", k.primary_id)); a(cereal::make_nvp("PrimaryInitialPosition", k.primary_initial_position)); a(cereal::make_nvp("PrimaryMass", k.primary_mass)); a(cereal::make_nvp("PrimaryMomentum", k.primary_momentum)); a(cereal::make_nvp("PrimaryHelicity", k.primary_helicity)); a(cereal::make_nvp("TargetID", k.target_id)); a(cereal::make_nvp("TargetMass", k.target_mass)); a(cereal::make_nvp("TargetHelicity", k.target_helicity)); a(cereal::make_nvp("InteractionVertex", k.interaction_vertex)); a(cereal::make_nvp("SecondaryIDs", k.secondary_ids)); a(cereal::make_nvp("SecondaryMasses", k.secondary_masses)); a(cereal::make_nvp("SecondaryMomenta", k.secondary_momenta)); a(cereal::make_nvp("SecondaryHelicities", k.secondary_helicities)); a(cereal::make_nvp("InteractionParameters", k.interaction_parameters)); } };
struct OldFlux { double a, b; utilities::Interpolator1D<double> t; distributions::TabulatedFluxDistribution * d; template<class A> void serialize(A & r, std::uint32_t const) { r(cereal::make_nvp("EnergyMin", a)); r(cereal::make_nvp("EnergyMax", b)); r(cereal::make_nvp("FluxTable", t)); r(cereal::virtual_base_class<distributions::PrimaryEnergyDistribution>(d)); } };
GROUP(P03, older_records, 600, 20000) { Rng & r = c.r; dc::InteractionRecord q; auto pt = [&] { return static_cast<dc::ParticleType>(r.pick({12, -14, 16, 22, 2212, 1000080160, 5914, -13})); }; auto v4 = [&] { return std::array<double, 4>{r.lu(1e-3, 1e5), r.normal(), r.normal(), r.normal()}; }; q.signature.primary_type = pt(); q.signature.target_type = pt(); q.primary_id = dc::ParticleID::GenerateID(); if(r.coin()) q.target_id = dc::ParticleID::GenerateID(); q.primary_mass = r.lu(1e-3, 1); q.primary_momentum = v4(); q.primary_helicity = r.u(-1, 1); q.target_mass = r.lu(0.1, 10); q.target_helicity = r.u(-1, 1); q.primary_initial_position = {r.normal(), r.normal(), r.normal()}; q.interaction_vertex = {r.normal(), r.normal(), r.normal()}; int n = (int)r.i(5); for(int i = 0; i < n; ++i) { q.signature.secondary_types.push_back(pt()); q.secondary_ids.push_back(dc::ParticleID::GenerateID()); q.secondary_masses.push_back(r.lu(1e-3, 1)); q.secondary_momenta.push_back(v4()); q.secondary_helicities.push_back(r.u(-1, 1)); } while(r.coin(0.4)) q.interaction_parameters[mon::fmt("k%d", (int)r.i(9))] = r.normal();
    dc::InteractionRecord want = q; want.primary_initial_time = 0; want.interaction_time = 0; want.secondary_times.assign(n, 0); for(int f = 0; f < 3; ++f) { std::string s = ser::save(f, OldRecord{q}); dc::InteractionRecord x; if(r.coin()) { x.primary_initial_time = 5; x.interaction_time = 6; x.secondary_times = {1, 2, 3}; } std::string e = ser::tryload(f, s, x); CHECK("older-version-loads", e.empty() && x == want, "%s record of the first version with %d secondaries: %s times %g %g (%zu)", ser::F[f], n, e.c_str(), x.primary_initial_time, x.interaction_time, x.secondary_times.size()); seen("%s %d", ser::F[f], n); } }
GROUP(P03, older_fluxes, 300, 10000) { Rng & r = c.r; auto t = pool::gen_table(r, r.coin(0.3)); std::shared_ptr<distributions::TabulatedFluxDistribution> d; try { d = std::make_shared<distributions::TabulatedFluxDistribution>(t.a, t.b, t.x, t.f, false, true); } catch(std::exception const &) { return; } if(r.coin()) d->SetNormalization(r.lu(1e-3, 1e3)); utilities::TableData1D<double> td; td.x = t.x; td.f = t.f; utilities::Interpolator1D<double> I(td);
    for(int f = 0; f < 3; ++f) { std::string s = ser::save(f, OldFlux{t.a, t.b, I, d.get()}); std::shared_ptr<distributions::TabulatedFluxDistribution> x = d->clone() ? std::dynamic_pointer_cast<distributions::TabulatedFluxDistribution>(d->clone()) : nullptr; if(r.coin()) x = std::make_shared<distributions::TabulatedFluxDistribution>(1., 2., std::vector<double>{1, 2}, std::vector<double>{1, 1}); std::string e = ser::tryload(f, s, *x); bool ok = e.empty(); std::string why = e; if(ok && !(*x == *d)) { ok = false; why = "compares unequal"; } if(ok && (x->IsNormalizationSet() != d->IsNormalizationSet() || (d->IsNormalizationSet() && x->GetNormalization() != d->GetNormalization()))) { ok = false; why = "normalisation"; } for(int i = 0; ok && i < 12; ++i) { double E = r.u(t.a, t.b), u = r.u(0.01, 0.99); if(!close(d->SamplePDF(E), x->SamplePDF(E), 1e-12)) { ok = false; why = mon::fmt("density %g %g", d->SamplePDF(E), x->SamplePDF(E)); } else if(!close(d->InverseCDF(u), x->InverseCDF(u), 1e-12)) { ok = false; why = mon::fmt("quantile %g: %g instead of %g", u, x->InverseCDF(u), d->InverseCDF(u)); } } if(ok && (x->GetEnergyNodes() != d->GetEnergyNodes() || x->GetCDF() != d->GetCDF() || x->GetCDFEnergyNodes() != d->GetCDFEnergyNodes())) { ok = false; why = "nodes"; } CHECK("older-version-loads", ok, "%s flux of the first version with %zu points: %s", ser::F[f], t.x.size(), why.c_str()); seen("%s flux %zu", ser::F[f], t.x.size()); } }
