#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
RT='pyrtlib/rt_equation.py'; TB='pyrtlib/tb_spectrum.py'; AM='pyrtlib/absorption_model.py'; UT='pyrtlib/utils.py'
EX='pyrtlib/climatology/extrapolation.py'; WF='pyrtlib/weighting_functions.py'; UN='pyrtlib/uncertainty/absmod_uncertainty.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Radiative transfer solution for any layered atmosphere",
"For every frequency, temperature profile and non-negative layer opacities, the solver returns, looking up or down, the discrete radiative-transfer solution: the cumulative opacity from the antenna, the emission of every layer weighted by the transmittance in front of it, the background (cosmic looking up, surface emission times emissivity looking down) attenuated by the whole path, and the effective mean radiance. Once total opacity reaches the exponent limit the background is dropped and the mean radiance is the atmospheric radiance. With emissivity in [0,1] the total never exceeds the largest Planck value of the profile and background, and an isothermal scene looked at with emissivity 1 returns its own Planck value.",
["inputs","configurations"],"all profile lengths >= 2, all temperatures > 0, all opacities >= 0, all frequencies > 0, all emissivities, both viewing directions",
"Tests run a handful of standard atmospheres at a few frequencies and compare to stored numbers; opacity beyond the cutoff, non-black surfaces off the stored values, isothermal scenes and arbitrary layerings are never reached.",
[RT,UT],[("RTEquation.planck","pyrtlib/rt_equation.py"),("tk2b_mod","pyrtlib/utils.py")],["return value of RTEquation.planck"])

p("C02","Planck radiance and brightness temperature are exact inverses",
"For every frequency and positive temperature the modified Planck radiance is 1/(exp(h*nu/(k*T))-1), positive and strictly increasing with temperature, and converting it back gives the temperature it came from. A zero radiance is converted to 0 K and no other radiance is special-cased. The physical constants handed out by name are the documented CODATA values with their units, and an unknown name is rejected.",
["inputs"],"all h*nu/k > 0, all T > 0, all non-negative radiances; every name of a constant",
"The pair is only exercised through end-to-end spectra; no test composes the two functions over a range or checks monotonicity, and only some constants influence stored numbers.",
[UT,RT],[("tk2b_mod","pyrtlib/utils.py"),("RTEquation.bright","pyrtlib/rt_equation.py"),("constants","pyrtlib/utils.py")],["return values"])

p("C03","Path integration of a profile",
"Integrating a non-negative profile over layer depths uses, layer by layer, the logarithmic mean of the two bounding values (their common value when they differ by less than 1e-9, and when one bound is zero either zero or their average as the caller asked), returns the per-layer integrals with zero outside the integrated range, and their sum times the factor. A negative value stops the integration there with the unscaled partial sum. Each layer value lies between the two bounding values, so a constant profile integrates exactly and the inputs are never modified.",
["inputs","configurations"],"all profile lengths, all non-negative profiles, all layer depths, all level ranges, both zero-handling modes, all factors",
"Tests only see the integrals of the stored atmospheres; zero bounds, near-equal values, negative entries and sub-ranges do not occur there.",
[RT],[("RTEquation.exponential_integration","pyrtlib/rt_equation.py")],["return value"])

p("C04","Cloud absorption, cloud water path and cloud temperature",
"For every cloud the liquid and ice absorption at each level depend only on that level's densities, temperature and the frequency through the selected model's permittivity law, are zero where the density is not positive, and scale linearly with density; every implemented model has a liquid law and an unknown model is rejected. The cloud water path is a tenth of the trapezoidal sum over every layer from each cloud base to its top, added over clouds. The cloud radiating temperature is the brightness temperature of the radiance emitted between base and top, brought back to the base and normalised by the cloud's own absorption, and is refused when the absorption below the cloud exceeds the exponent limit.",
["inputs","configurations"],"all density and temperature profiles, all frequencies, all models, any number of cloud layers and any base/top levels",
"Two stored cloudy spectra exist, with one model and one cloud each; multiple clouds, zero densities and most models are not run.",
[RT,AM,UT],[("LiqAbsModel.liquid_water_absorption","pyrtlib/absorption_model.py"),("RTEquation.cloudy_absorption","pyrtlib/rt_equation.py"),("RTEquation.cloud_integrated_density","pyrtlib/rt_equation.py"),("RTEquation.cloud_radiating_temperature","pyrtlib/rt_equation.py"),("dilec12","pyrtlib/utils.py")],["return values"])

p("C05","Slant path through a refracting spherical atmosphere",
"For every height profile, refractive-index profile, elevation angle and antenna height, ray tracing returns the per-layer slant lengths of the Dutton-Thayer-Westwater spherical-shell algorithm, with zero for the first level; within one degree of zenith (either sign) they are exactly the height differences. A refractive index below one anywhere yields no path at all, and when the ray is ducted the lengths up to that layer are returned and the rest are zero. The inputs are never modified.",
["inputs"],"all profile lengths, heights, refractive indices, elevation angles and antenna heights",
"Ray tracing is exercised by one or two stored spectra at fixed angles; ducting, sub-unity indices, constant-index layers and near-horizontal rays are not reached.",
[RT,UT],[("RTEquation.ray_tracing","pyrtlib/rt_equation.py")],["return value"])

p("C06","Water vapour pressure, density and refractivity of a profile",
"For every temperature and relative humidity profile the vapour pressure is the humidity times the Goff-Gratch saturation pressure over water (over ice below 263.16 K when ice is requested) and the vapour density follows from the ideal gas law, level by level. Dry and wet refractivity follow Thayer's equations at each level from pressure, temperature and vapour pressure alone, and the refractive index is one plus a millionth of their sum. Inputs are never modified and no level influences another.",
["inputs","configurations"],"all profile lengths, temperatures, humidities and pressures, with and without the ice switch",
"Tests only use the liquid-water branch on standard profiles; the ice branch is never executed and refractivity only through stored path integrals.",
[RT,UT],[("RTEquation.vapor","pyrtlib/rt_equation.py"),("RTEquation.refractivity","pyrtlib/rt_equation.py")],["return values"])

p("C07","Water-vapour absorption for every implemented model",
"For every implemented water-vapour model, and any line catalogue, the line and continuum terms equal that model's published law at the given dry pressure, vapour pressure, temperature and frequency: each line contributes both its resonant and mirror term with its pressure-broadened width and shift within the 750 GHz cutoff and minus the pedestal, speed-dependent models use the Hui-Armstrong-Wray shape near the centre, and the continuum follows that model's own formula. With no water vapour both terms are zero. The result depends on nothing but these inputs and the loaded catalogue, which the call leaves unchanged when no perturbation is supplied.",
["inputs","configurations"],"all models, all pressures, temperatures, vapour pressures and frequencies, any number of lines with any parameters",
"Stored spectra sample a few models at a few frequencies with the shipped catalogue; dry levels, lines near the cutoff or the speed-dependent switch, and most models away from stored frequencies are not reached.",
[AM,UT],[("H2OAbsModel.h2o_absorption","pyrtlib/absorption_model.py"),("H2OAbsModel.h2o_continuum","pyrtlib/absorption_model.py"),("H2OAbsModel.h2o_continuum_mwl24","pyrtlib/absorption_model.py"),("_dcerror","pyrtlib/utils.py")],["return value"])

p("C08","Oxygen absorption for every implemented model",
"For every implemented oxygen model, and any line catalogue, the absorption equals that model's published law at the given dry pressure, vapour pressure, temperature and frequency: the non-resonant term, every line with its broadening, line mixing (including second order and the band normalisation where the model has them), and the model's own floor at zero and intensity scaling. The line term is never negative except in the 1998 model, which has no floor. The result depends on nothing but these inputs and the loaded catalogue, which the call leaves unchanged when no perturbation is supplied.",
["inputs","configurations"],"all models, all pressures, temperatures, vapour pressures and frequencies, any line parameters",
"Stored spectra sample a few models and frequencies; the per-model branches away from them, the zero floor and the speed-dependent 118 GHz line are not isolated.",
[AM,UT],[("O2AbsModel.o2_absorption","pyrtlib/absorption_model.py"),("_dcerror","pyrtlib/utils.py")],["return value"])

p("C09","Nitrogen and ozone absorption",
"For every model the nitrogen collision-induced absorption follows that model's published law in dry pressure, temperature and frequency, grows with the square of dry pressure, and an unknown model is rejected. Ozone absorption sums, for any line catalogue ordered by frequency, exactly the lines whose centre lies within 1 GHz of the frequency with the model's line shape, is proportional to the Planck-corrected ozone amount law of the model, and is zero when there is no ozone.",
["inputs","configurations"],"all models, all pressures, temperatures, frequencies and ozone densities, any ordered catalogue",
"Only total spectra are stored; the selection window, absent ozone and most models' nitrogen coefficients are not isolated by any test.",
[AM,UT],[("N2AbsModel.n2_absorption","pyrtlib/absorption_model.py"),("N2AbsModel.n2_absorption_mwl24","pyrtlib/absorption_model.py"),("O3AbsModel.o3_absorption","pyrtlib/absorption_model.py")],["return value"])

p("C10","Clear-sky absorption is composed level by level",
"At every level the wet absorption is the water-vapour model's line plus continuum at that level's dry pressure, vapour pressure and temperature converted from ppm to Np/km, and the dry absorption is oxygen plus nitrogen (if a nitrogen model is set) plus ozone (only if an ozone profile is given and an ozone model is set), each from the same level. No level influences another, any perturbed parameters reach every gas model that supports them, and the input profiles are never modified.",
["inputs","configurations"],"all profile lengths and values, with and without ozone, nitrogen and perturbed parameters",
"End-to-end spectra mix all levels into one number; a wrong unit or level index in a minor term stays within stored tolerance or outside the stored cases.",
[RT],[("RTEquation.clearsky_absorption","pyrtlib/rt_equation.py")],["return value"])

p("C11","A simulated spectrum is the composition of its physical steps",
"For every profile, set of frequencies and set of angles, running the simulation yields for each frequency-angle pair exactly: slant path (refracted or plane-parallel as selected), path-integrated wet, dry, liquid and ice absorption, radiative transfer in the selected direction with that frequency's emissivity, and brightness conversion of the total, atmospheric and mean radiances; cloud terms are zero unless clouds are enabled. Every pair's results are independent of which other frequencies and angles are simulated and appear in the table in angle-major order with its angle. The extended outputs are the per-layer and integrated quantities of the same computation; the cloud radiating temperature is undefined without clouds and, looking down, the atmospheric temperature of the table is zero.",
["inputs","configurations"],"all profiles, any number (at least one) of frequencies and of elevation angles strictly between 0 and 180 degrees, upward and downward, clear and cloudy, refracted or plane-parallel, any emissivity per frequency, any gas models",
"Stored spectra use one angle or a few fixed ones and a uniform emissivity; independence between angles and frequencies, per-frequency emissivity and the extended outputs are not asserted.",
[TB,RT],[("TbCloudRTE.execute","pyrtlib/tb_spectrum.py"),("TbCloudRTE.init_cloudy","pyrtlib/tb_spectrum.py")],["DataFrame and dictionary returned by execute"])

p("C12","Simulation set-up respects the caller's data and choices",
"Creating, configuring and running a simulation never modifies the caller's arrays, and running it again, or after other simulations, gives the same result. A profile given top-down gives the same simulation as the same profile given bottom-up, and one that is neither increasing nor decreasing is rejected. Direction (a boolean), emissivity (a float or an array, one value per frequency) and cloud levels take effect exactly as set and invalid values are rejected with the previous setting kept. Gas models are chosen for the whole process: selecting a model by name selects the water-vapour, oxygen, nitrogen and liquid-water laws (not ozone) used by runs from then on, a model passed at creation is selected like that, and an unknown name is rejected.",
["inputs","histories","configurations"],"all monotone and non-monotone profiles in either order, all setter values, all orders of creating, configuring and running several simulations",
"No test passes a descending or non-monotone profile, re-runs an object, interleaves two objects, inspects the caller's arrays afterwards, or passes the model at creation.",
[TB],[("TbCloudRTE.__init__","pyrtlib/tb_spectrum.py"),("TbCloudRTE setters, init_absmdl, init_cloudy","pyrtlib/tb_spectrum.py")],["attributes, results, caller's arrays"],
[("RTEquation._from_sat/_emissivity","direction and emissivity in force","pyrtlib/rt_equation.py"),("XAbsModel.model/.*ll","gas model and catalogue in force","pyrtlib/absorption_model.py")])

p("C13","Perturbing spectroscopic parameters changes what was named, nothing else",
"Perturbing parameters moves exactly the named parameters (all of them when none is named), at the given index when they are arrays, by plus or minus their uncertainty, leaves the registered parameters untouched, and rejects an unknown mode; an array with a single uncertainty moves as a whole; asking for no perturbation returns equal values. The default parameters of a model are the values of that model's own catalogue in documented units. Running the absorption models with unperturbed parameters gives the same absorption as running without parameters, and a later run without parameters is not affected by earlier perturbed ones.",
["inputs","histories","configurations"],"all models, all parameter subsets, modes and indices, all sequences of perturbed and unperturbed calls",
"Tests perturb a few parameters once for one model; frame conditions (what must not change), repeated and interleaved use and other models are not tested.",
[UN,AM,'pyrtlib/_lineshape'],[("SpectroscopicParameter.*_parameters, set_parameters","pyrtlib/uncertainty/absmod_uncertainty.py"),("AbsModUncertainty.parameters_perturbation","pyrtlib/uncertainty/absmod_uncertainty.py"),("*.{h2o,o2,o3}_absorption amu branch","pyrtlib/absorption_model.py")],["returned dictionaries, catalogue attributes, absorption values"])

p("C14","Uncertainty propagation follows the first-order rules",
"For each supported combination (scaling, weighted sum and difference, product, quotient, power) and all operand values, the propagated value is that combination of the operands and its standard deviation is the documented first-order formula including the covariance term. An unsupported combination is rejected. Scaling all uncertainties by a positive constant (and the covariance by its square) scales the propagated uncertainty by that constant, and sums and differences with zero covariance have equal uncertainty.",
["inputs"],"all operand values, uncertainties, multipliers and covariances, every combination",
"Tests check each combination at single points with default multipliers and zero covariance.",
[UN],[("AbsModUncertainty.uncertainty_propagation","pyrtlib/uncertainty/absmod_uncertainty.py")],["return value"])

p("C15","Humidity conversions are mutually consistent",
"Conversions between mixing ratio, vapour pressure, vapour density and relative humidity follow the documented laws for all pressures, temperatures and amounts, and those that invert each other are exact inverses (mixing ratio with vapour pressure, mixing ratio with vapour density). Relative humidity is the ratio of vapour pressure (or mixing ratio, for the WMO value) to its saturation value over water, or over ice below the threshold when one is given. Volume to mass mixing ratio uses the molecular mass of the named gas, number densities and dew-point humidity follow their documented formulas, and no conversion modifies its inputs.",
["inputs","configurations"],"all pressures, temperatures, humidities and amounts, every gas id, both dew-point methods, with and without ice threshold",
"Each conversion is tested at one profile with rounded expected values; round trips, thresholds, gas ids and alternative methods are not.",
[UT],[("mr2rh, mr2rho, mr2e, rho2rh, rho2mr, e2mr, ppmv2gkg, gas_mass, dewpoint2rh, kgkg_to_kgm3, ppmv_to_moleculesm3","pyrtlib/utils.py")],["return values"])

p("C16","Saturation vapour pressure and mixing ratio",
"For every temperature the saturation pressure over water and over ice equals the Goff-Gratch formula, is positive, and the radiative-transfer and utility versions over water agree everywhere. With an ice threshold, levels at or below it use the ice formula and all others the water formula, independently of each other; the saturation mixing ratio is the mixing ratio of the saturation pressure at the same pressure. Inputs are never modified.",
["inputs","configurations"],"all temperatures > 0 and pressures above saturation, any profile length, with and without threshold",
"Tests compare a few tabulated values; the threshold path on mixed profiles and the agreement between the two implementations are not asserted.",
[UT,RT],[("satvap, satmix, eswat_goffgratch, esice_goffgratch","pyrtlib/utils.py"),("RTEquation.vapor","pyrtlib/rt_equation.py")],["return values"])

p("C17","Height, pressure, thickness and temperature conversions",
"Height-to-pressure and pressure-to-height are exact inverses of each other and both strictly decreasing, as are Celsius-to-Kelvin and back (strictly increasing). The virtual temperature follows the exact moist-air formula, equals the temperature in dry air and exceeds it otherwise. Layer thickness is zero at the first level and at each other level is the hypsometric integral from the first level (virtual temperature when moisture is given), so thickness is additive over levels and depends on no level above.",
["inputs"],"all heights, pressures, temperatures and mixing ratios, profiles of any length",
"Each function is tested at one or two points; inverses, additivity and monotonicity are not.",
[UT],[("pressure_to_height, height_to_pressure, virtual_temperature, _thickness_hydrostatic, atmospheric_tickness, to_kelvin, to_celsius","pyrtlib/utils.py")],["return values"])

p("C18","Reference standard atmosphere of ITU-R P.835-6",
"At every height from 0 to 100 km (geopotential boundaries as coded; the sliver between the two scales at 86 km excluded), latitude and season the reference temperature, pressure and water-vapour density equal the ITU-R P.835-6 expression of the layer and climate zone containing it, with each layer boundary, zone boundary and season assigned as coded in the recommendation, element by element for arrays. An unknown season or mode is rejected. The instance-level methods give the same values as the underlying model.",
["inputs","configurations"],"all heights, all latitudes of either sign, all seasons, all atmospheres",
"Tests sample single heights per zone; layer boundaries, other layers and southern latitudes are not covered.",
[EX],[("_ITU835_6.*","pyrtlib/climatology/extrapolation.py"),("ProfileExtrapolation.*","pyrtlib/climatology/extrapolation.py")],["return values"])

p("C19","Profile extrapolation keeps the measured part and extends it",
"For every input profile the extrapolated profile starts with the given levels unchanged and continues, strictly above them, with levels of the reference atmosphere of the right season and latitude: every 3.2 km from the top of the given profile while below 50 km, then the levels of the reference grid above. Their pressure and temperature are the reference values and their humidity is the fraction implied by the reference vapour density. All returned profiles have the same length, the inputs are not modified, and the result does not depend on earlier calls on the same object.",
["inputs","histories"],"all increasing profiles below, at and above the 50 km switch, all latitudes and months, repeated calls on one object",
"One profile is extrapolated once per test; high-reaching profiles, the units of humidity and repeated calls are not tested.",
[EX,UT],[("ProfileExtrapolation.profile_extrapolation","pyrtlib/climatology/extrapolation.py"),("ProfileExtrapolation._get_season","pyrtlib/climatology/extrapolation.py")],["return value"])

p("C20","Weighting functions are transmittance times absorption",
"For every profile and frequency set the weighting function at a level is the total absorption there times the transmittance of the path between that level and the observer, at the top for satellite geometry (the layers from the one ending at that level upwards) and at the ground otherwise (the layers up to that level), computed from all layer opacities of the same simulation (which honours the configured direction, angle, model and emissivity). The profile is resampled by linear interpolation on the regular grid. Band averaging averages, for each channel, exactly that channel's consecutive frequencies.",
["inputs","configurations"],"all profiles, frequency sets, both geometries, all band partitions",
"One stored weighting function per geometry; arbitrary bandpass partitions and orientation of the transmittance are not isolated.",
[WF,TB],[("WeightingFunctions.generate_wf, _mean_channel, _perform_calculation, __init__","pyrtlib/weighting_functions.py")],["return value"])

p("C21","Instrument channel tables and gas masses",
"Every listed instrument yields exactly its documented channel frequencies in order, double-sideband channels appearing as both of their sidebands symmetric about the centre, whatever the letter case of the name, and an unknown instrument is rejected. Every gas id (names compared as ASCII text) yields the mass of its molecule from its atoms' masses. Each call returns fresh data, so a caller changing it affects no later call.",
["inputs","histories"],"all instrument names in any case, all gas ids, repeated calls",
"Tests check one instrument of each kind and a single gas.",
[UT],[("get_frequencies, get_frequencies_sat, gas_mass","pyrtlib/utils.py")],["return value"])

p("C22","Climatological profiles and catalogues are what the data files say",
"Each AFGL climatology returned (standard, minor and trace gases) is the one named: height, pressure, density, temperature and every gas column come from that climatology's own columns of the shipped data in the documented order, and an unknown climatology or gas number raises ValueError. For every implemented model the loaded line catalogue exposes each parameter from that model's own group and column in the documented units, and an unknown model raises AbsModelError. Loading one model leaves no value of a previously loaded model visible where the new one defines it. The covariance matrices of the spectroscopic parameters are those of their own published files, rows and columns in file order.",
["inputs","histories","configurations"],"all climatology numbers, all gas columns, all models of each gas, any order of loading",
"Tests read single values of one climatology; most columns and models are not compared to the data.",
['pyrtlib/climatology/atmospheric_profiles.py','pyrtlib/_lineshape',AM,UT],[("AtmosphericProfiles.gl_atm, gl_atm_minor, gl_atm_trace","pyrtlib/climatology/atmospheric_profiles.py"),("_lineshape modules","pyrtlib/_lineshape"),("set_ll, implemented_models, import_lineshape","pyrtlib/absorption_model.py"),("R17_111, R17_112, R19","pyrtlib/uncertainty/covariance_matrix/__init__.py")],["return value, catalogue attributes"])

p("C23","IGRA2 sounding files are parsed field by field",
"For every well-formed station file and date (or date range), standard, recent or derived, exactly the soundings whose date falls in the range (both ends included, a sounding without hour counting as hour 0) are returned, each level paired with its own sounding, every field taken from its documented columns with its documented scaling, missing-value codes becoming missing, and derived time fields denoting the encoded minutes/seconds and hours/minutes, levels without any measurement left out and units attached.",
["inputs"],"all IGRA2 files, dates and ranges",
"The tests need the network and are skipped offline; they compare a few values of one station.",
['pyrtlib/apiwebservices/igra2.py'],[("IGRAUpperAir.request_data, _get_data, _get_data_raw, _select_date_range, _clean_body_df, _clean_header_df, _get_fwf_params","pyrtlib/apiwebservices/igra2.py")],["returned data frames"])

p("C24","Wyoming sounding pages are decoded faithfully",
"For every well-formed sounding page the returned table holds, in order and once, each reported level that has both temperature and dew point, every value from its own column with its documented unit, entries left blank marked as missing, and the station metadata and title of that page; a page without data raises an error naming the station and date.",
["inputs"],"all Wyoming upper-air pages","Tests need the network and compare a few values of one sounding.",
['pyrtlib/apiwebservices/wyomingupperair.py'],[("WyomingUpperAir._get_data","pyrtlib/apiwebservices/wyomingupperair.py")],["returned data frame"])

p("C25","ERA5 profiles come from the grid point nearest to the request",
"For every reanalysis file and requested position the returned profile is that of the grid point nearest on the sphere, ordered from the surface up, with pressure, temperature, humidity, cloud water and ozone of that point only, converted to the documented units. A download asks the climate data store, for every date and hour, position, resolution and offset, for all fields and levels of that hour in the box of the given half width around the position (north, west, south, east), written to the file whose name is returned.",
["inputs"],"all grids, positions and times","Tests need a downloaded file; no grid with unequal latitude and longitude extents is tried, and no request is sent.",
['pyrtlib/apiwebservices/erafive.py'],[("ERA5Reanalysis.read_data, request_data","pyrtlib/apiwebservices/erafive.py")],["returned data frame","request to the data store"])

p("C26","A web request reaches its address and a failed one is an error",
"Every relative request of an endpoint asks for exactly the base address and the path joined by one slash (a query without path: the base without its last slash), with the query passed on unchanged; a response with any status other than 200 raises HTTPError telling the address, the status and the server's message, and is never returned as data. Sessions identify as pyrtlib with its version and carry the options given last.",
["inputs","configurations"],"all endpoints, paths, status codes and content types","The tests are offline or need the live servers, which answer 200.",
['pyrtlib/apiwebservices/webservices.py'],[("HTTPEndPoint._get, _get_path, _get_query, _url_path; HTTPSessionManager.create_session","pyrtlib/apiwebservices/webservices.py")],["requested address","return value","exception"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80, d['id']
        f.write(json.dumps(d)+'\n')
print(len(P))
