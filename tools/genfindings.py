"""Writes known_findings.json: the genuine defects of naima found by the checks.

All of them were repaired ("fix:" commits in /repo); a fixed entry suppresses nothing."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = """
43f8d66 C06 flux(e, distance=0) returned the cached 1 kpc flux; two instances differing only in a function/TableModel/type of particle distribution shared cached results; changing the returned array changed later results
7f3dd6a C06 PionDecayKelner06 instances shared one flux cache
2968b6a C07 flux(e, seed=s) after a cached flux call on other energies returned the spectrum of those
cfb47cc C07 seed=number of seeds was accepted and returned an unrelated spectrum
20fe10b C08 InverseCompton.sed(table, seed=...) raised
b0eda7b C11 weight_ep=0 or weight_ee=0 raised UnitConversionError
bf3faa2 C08 scalar photon energies raised in Synchrotron, Bremsstrahlung and PionDecay
2ea40ae C14 set_We/set_Wp rescaled in place the amplitude Quantity the user passed
25f3a4f C12 PionDecay(useLUT=False) with Epmin near the threshold gave NaN
73a0316 C12 photon energies outside 10 MeV-1 PeV used the edge of the lookup table
4bb2f7d C03 transmission above 100 TeV was 0.023 at any redshift
a4b64a3 C20 normal_prior(x, m, s) had the wrong width
dd52a81 C20 log_uniform_prior was not the logarithm of 1/value
796dd0b C19 several violated upper limits: CL of an unrelated point, or IndexError
5113b4b C16 validating a validated table reset its confidence levels to 90%
4b98b73 C32 generate_energy_edges of unsorted energies gave negative or wrong edges
c44e88c C24 save_results_table(last_step=True) used all steps of the last walker
77517a7 C25 never more than 100 samples for the confidence bands, also for 3 sigma
56cd8c5 C31 plot_fit sorted the confs list in place; default ulim_opts leaked from one plot to the next
d17e8fa C26 plot_data raised if all points were compatible with zero
d7a29c9 C25 plot_fit of read_run results without a model raised although the file has the blobs
26ad133 C27 null median or uncertainty raised OverflowError
ed7a6dc C21 run_sampler(sampler=...) after a parallel run raised: pool closed
83b1de9 C22 get_sampler multiplied the p0 array of the user (truncating integer arrays) and extended its labels
3b9050a C22 labels such as Log10(norm) were rescaled instead of shifted
d9b349b C22 prefit from integer parameters was truncated to integers
137be3e C21 models returning several arrays of one length lost the units of their blobs
d81bda2 C23 read_run stopped at the first blob not saved and dropped arrays of tuples
31f1c20 C11 photon energy equal to an electron energy gave inf/NaN
098f588 C17 tables of differential flux and luminosity: UnitConversionError or KeyError instead of TypeError
10c7728 C18 model of another physical type: failure far from its origin instead of UnitsError
5cc6b0a C29 estimate_B of a luminosity and a flux returned a number
d66470e C33 sed_conversion of differential number densities returned wrong units
7d9ca5d C22 guess with negative or null data or model integrals set the normalization to NaN or a negative value
57cfe61 C26 negative flux points raised ValueError in plots
5653703 C26 plot_fit(figure=f) drew on the current figure if f is not current
8f03cda C26 plot_data(figure=f) ignored the energy units of the figure
70e1ffa C26 plot_fit with residuals raised for model outputs with their own energies
34b92db C24 save_results_table(convert_log=True) converted every label containing log10(
64634f9 C24 labels with non-ASCII characters raised in save_results_table
6d4dedd C23 save_run/read_run changed the shape of blobs (scalars, 2-d arrays)
b92f7c8 C31 save_diagnostic_plots modified the blob_labels it was given
54d44f3 C26 plot_corner left the line width of matplotlib changed when it failed
28319c8 C27 null upper uncertainty raised or was formatted without it
4ed7d15 C25 confidence levels below 0.31 or above 6 sigma raised: gray level outside [0, 1]
5f2d793 C25 find_ML of samplers without blobs took the model array for a list of outputs
24314ee C26 plot_data(dict of validated columns) raised
d92f5e7 C30 negative, null or large initial parameters lay outside of the range of their slider
2a127dc C30 after a fit that did not converge sliders and model line did not show its parameters
6a897d9 C16 the documented meta["keywords"]["cl"]=0.99 (a number) raised TypeError
f5ae92d C34 save_diagnostic_plots(pdf=True) left the PDF font type of matplotlib changed
5aa47e4 C34 no chain plot for labels with slashes, one overwritten by another for norm and log10(norm)
ea7103a C36 PionDecayKelner06.nh assigned in another unit (cm, g/cm3) gave a wrong flux
8257777 C25 plot_fit without data of models with a deep exponential cutoff raised ValueError
1e06dd3 C07 a tuple or array of seed photon fields raised AttributeError
9181495 C27 plot_blob of a scalar blob showed it as a spectrum if there was a single data point
f919d7e C07 InverseCompton.flux(e, seed=-1) returned the last seed field, seed=-3 raised IndexError, and numpy integers were rejected
62da9e7 C07 of two seed photon fields of the same name all but the last were silently dropped from the spectrum
7036677 C24 values of a scalar blob in a unit other than that of the first were tabulated without conversion
aa0e83c C24 labels longer than 72 characters were cut in the results table
dbf1046 C21 labels given as an array or iterator failed in get_sampler (AttributeError) and, as numpy strings, in save_run (TypeError)
7a2eaa6 C12 with the lookup table protons above 10 PeV had the cross section of 10 PeV: PionDecay(Epmax=100 PeV) 30% low at 900 TeV
774b49b C34 plot_corner and save_diagnostic_plots raised TypeError for models with a single parameter
994f719 C24 the exponentiated value of a parameter labelled log10(norm (1/eV)) was reported as that of "1/eV"
fffa10c C16 upper limit flags as 8 to 32 bit integers or byte strings (as read from FITS files) were rejected with TypeError
e49b428 C04 InverseCompton flux infinite at some energies: trapz_loglog overflowed between values many decades apart
cea8697 C10 InverseCompton ignored the angle given for monochromatic and tabulated seed photon fields (isotropic flux)
""".strip().split("\n")


def main():
    out = []
    for line in FIXED:
        commit, prop, what = line.split(" ", 2)
        full = subprocess.run(["git", "-C", "/repo", "rev-parse", commit], capture_output=True,
                              text=True).stdout.strip() or commit
        out.append({"property": prop, "status": "fixed", "commit": full,
                    "entry": "fixed: property=%s %s %s" % (prop, commit, what), "what": what})
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")
    print(len(out), "fixed findings")


if __name__ == "__main__":
    main()
