TLC = "TLA+ specification model-checked with TLC + "
G = ("Assurance: exhaustive within the stated constants at the specification level; at the code level every recorded "
     "behaviour (inputs generated from the seed) is judged by the specification, and damaged copies are shown to be "
     "rejected. Trusts TLC, the recorder in /verif/harness and the fixed-point abstraction. ")
NA = {}
NOTE = {
 "C01": (TLC + "trace validation of the generated subcolumns", G + "Fractions/N are enumerated by TLC for the rounding and threshold cases."),
 "C02": (TLC + "trace validation of the generated subcolumns", G + "All small profiles are enumerated in the model; the code is run on random and enumerated profiles with many draws."),
 "C03": (TLC + "trace validation of the generated subcolumns", G + "As C02, with the precipitation preference classes."),
 "C04": (TLC + "trace validation of distributed mass and number", G + "Relative tolerance 1e-6 on values."),
 "C05": (TLC + "trace validation of distributed liquid", G + "Relative tolerance 1e-6 on means; hangs are detected by a time limit."),
 "C06": (TLC + "replay of TLC-generated schedules, trace validation against the serial run", G + "All worker orders of the small chunk model are enumerated, a sample is executed on the code through a scheduler driven by them."),
 "C07": (TLC + "replay of TLC-generated sessions, trace validation of derivations", G + "Sessions are random walks of the session model up to the given depth; equality of results is to 1e-9 relative."),
}
NOTE["C09"] = (TLC + "trace validation of class sums in every cell", G + "Sums are compared to 1e-8 of the largest term, in all three routes.")
NOTE["C10"] = (TLC + "trace validation of beam profiles, layer by layer", G + "The beam model is exhaustive for 4-5 layers; recorded profiles have 4-7 layers, both directions.")
NOTE["C11"] = (TLC + "trace validation of radar transmittance profiles, layer by layer", G + "Extinction per layer comes from the surface/spaceborne pair and single-class runs; all three routes.")
NOTE["C12"] = (TLC + "trace validation of the reflectivity calculus in every cell", G + "Decibel relations in fixed point (1e-6 ln units).")
NOTE["C20"] = (TLC + "trace validation of Doppler mixtures in every cell", G + "The mixture algebra is exhaustive over a small grid of weights and velocities.")
NOTE["C13"] = (TLC + "trace validation of extinction masks along crafted beams", G + "Depth profiles are crafted around the threshold, both directions, plus real simulated scenes.")
NOTE["C14"] = (TLC + "trace validation of depolarization ratios in crafted cells", G + "Backscatter and ratios are integers, so the weighted mean is checked to 1e-6 absolute.")
NOTE["C15"] = (TLC + "trace validation of classes in crafted cells", G + "The specification evaluates the threshold curves itself; points on flat parts and at curve points are checked exactly, elsewhere a margin of 3e-5 in log10 is left open.")
NOTE["C16"] = (TLC + "trace validation of classes in crafted cells", G + "All combinations of signal, minimum, liquid and range are enumerated in the model and crafted on the code.")
NOTE["C17"] = (TLC + "trace validation of the retrieval along crafted beams", G + "The published signal polynomials are evaluated by the recorder independently of emc2; the decision sequence is the specification's.")
NOTE["C18"] = (TLC + "trace validation of ratios in crafted cells", G + "Counts and masses are integers, checked to 1e-6.")
NOTE["C08"] = (TLC + "replay of TLC-generated option combinations: the one-call function against the plan's steps, and random misuse judged by the model", G + "Scenes with all-or-nothing covers make subcolumn generation free of chance, so equality is to 1e-9 relative.")
NOTE["C19"] = (TLC + "trace validation of signs in crafted subcolumns", G + "Every combination of clear, hollow and filled cells at every level, sizes inside the scattering tables' range, all routes, families and both instrument kinds.")
NOTE["C21"] = (TLC + "trace validation of restricted, permuted and emptied calculations", G + "Equality of results is to 1e-9 relative; all routes, families, directions, step by step and in one call.")

NOTE["C22"] = (TLC + "replay of random operation histories and regional simulations, each step judged by the specification", G + "Fields hold values that name their place; all dimension orders and shapes up to 3x3x4x3, dimensions with one element and without coordinates included.")
NOTE["C23"] = (TLC + "replay of random save/load/finalize/clear/simulate histories, each step judged by the specification", G + "Files are read back independently of emc2; equality to 1e-9.")
NOTE["C24"] = (TLC + "trace validation of regridded profiles, ratios and fractions, cell by cell", G + "Heights and signals are integers, so means are checked exactly up to the rounding of the record.")
NOTE["C25"] = (TLC + "trace validation of diagrams, level by level", G + "Samples on and next to every bin edge, undefined ones and flags; files are read back independently of emc2.")
NOTE["C26"] = (TLC + "trace validation of pairs of calculations, value by value", G + "Pairs differ by a random factor for all or for one class, all routes, families and instruments kinds; empirical values are judged by the specification's own formulas.")
NOTE["C27"] = (TLC + "trace validation of the same scene stored in several units, field by field", G + "Equality of results is to 1e-8 relative; all routes, families, directions, instrument kinds, both step by step and in one call.")
NOTE["C28"] = (TLC + "trace validation of attenuation and molecular scattering, cell by cell", G + "The transcendental parts (line shapes, dispersion) are evaluated by the recorder independently of emc2; composition, ranges, sums and laws are the specification's.")
NOTE["C29"] = (TLC + "trace validation of size distributions, cell by cell", G + "Gamma functions are evaluated by the recorder; closure of number and mass is the specification's. One known finding (Martin dispersion) is listed.")
NOTE["C30"] = (TLC + "trace validation of the scattering sums and bulk efficiencies, cell by cell, against candidate tables", G + "Interpolation in the tables is done by the recorder; which table, the sum over sizes and the composition are the specification's. Fall speeds and size distributions are taken as given by C29. One known finding (factor 4 pi of radar Mie tables) is listed.")
NOTE["C31"] = (TLC + "trace validation of loaded files, every cell recognised by a unique temperature", G + "WRF is read through a stand-in for wrf-python's getvar (not installed), which hands out variables of the file. Cells without ice, cloud or crystals have no promised P3 ratios.")
NOTE["C32"] = (TLC + "trace validation of display sessions: every cell, edge, line and label read back from the figures", G + "Figures are read as matplotlib artists, not as pixels. The direction of plot_instrument_mean_profile's axis with pressure_coords, default titles of mean profiles and outer edges of the outermost cells are not promised.")
NOTE["C33"] = (TLC + "trace validation of figures and files of the statistics, every cell and corner read back", G + "Figures are read as matplotlib artists; writing of image files is replaced by a recorder of their names. Outer edges of the outermost cells are not promised.")
NOTE["C34"] = (TLC + "trace validation of recorded instrument sessions: every table identified among the files, every column compared", G + "Site parameters are those of the code's documentation. The five smallest sizes of each Mie table are left out of the efficiency comparison (the second row of the optical tables is rough by up to 38 %).")
NOTE["C35"] = (TLC + "trace validation of recorded sequences of requests: every sphere checked against its laws and against its earlier answers", G + "Between the Rayleigh and the geometric regime efficiencies are bound only by the laws relating them (PyMieScatt's Mie series is trusted). Refractive indices are compared to 0.8 % in permittivity.")
NOTE["C36"] = (TLC + "trace validation of recorded sessions: the label of every field after every call against the step that made it", G + "The plans of the sessions are generated by TLC. Words of long names are searched for the quantity, cloud type and class they must or must not mention; their exact wording is free. Molecular and gaseous auxiliary fields are left out.")
