"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
S="src/onepower/"
CACHE=("cached quantities indexed by the parameters they read; updates invalidate the dependents","src/onepower/utils/framework.py Framework.update; @parameter/@cached_quantity declarations in hmi.py, pk.py, add.py, ia.py, bnl.py")
p("C01","Power spectra depend only on current parameter values, never on history",
 "After any sequence of parameter updates, mode switches and reads, every halo ingredient and power spectrum that a model object reports equals the one a newly constructed object with the same parameter values reports. The order in which results are read, and whether they were read before an update, makes no difference. Setting a parameter back to an earlier value restores the earlier results.",
 ["histories","configurations"],"all sequences of update and read operations over all model parameters and option switches",
 "A test reads one result of one freshly built object; stale caches need a particular read-then-update-then-read sequence, often across a mode switch that changes which parameters a result depends on.",
 [S+"pk.py",S+"hmi.py",S+"utils/framework.py"],[CACHE,("option switches drop all dependents so that dependencies are re-learned","parameter('switch') in hmi.py and pk.py")],
 [("parameter valuation","current value of every parameter","attributes of Spectra"),("cache","previously computed results and the parameters they were computed from","hmf cache attributes")],["public attributes of Spectra"])
p("C02","Combined two-population spectra depend only on the current settings",
 "For a combined/upsampled model, after any sequence of updates of its grids, population fraction, extrapolation option or model settings interleaved with reads, the reported fractions, component models and spectra equal those of a new object built with the current settings. Requesting a spectrum again gives the same values, and the order in which spectra and components are requested makes no difference.",
 ["histories","configurations"],"all sequences of updates and result requests on the combined model",
 "Tests build the object once and request results once; stale fractions or component models appear only after an update between two requests.",
 [S+"add.py",S+"utils/framework.py"],[CACHE,("component models derived from the settings","UpsampledSpectra.power_1/power_2/frac_1/frac_2 in add.py")])
p("C03","Intrinsic-alignment calculators depend only on current parameters",
 "After any sequence of parameter updates, switches of the dependence law or of the transform method, and reads, every amplitude, luminosity distribution, mass grid and alignment kernel of an alignment calculator equals that of a new calculator with the same parameters.",
 ["histories","configurations"],"all sequences of updates and reads over all alignment parameters and option switches",
 "Tests evaluate freshly built calculators; stale results require an update after a read, in particular across a switch of law or method.",
 [S+"ia.py",S+"utils/framework.py"],[CACHE,("law and method switches","AlignmentAmplitudes and SatelliteAlignment parameters in ia.py")])
p("C04","Non-linear halo bias: inputs clamped, amplitude matched, result symmetric",
 "The non-linear bias calculator hands its emulator a cosmology in which each value inside the supported range is unchanged and each value outside is moved to the nearest limit, with an amplitude chosen so that the requested sigma8 is reproduced unless a primordial amplitude is given. The resulting correction is symmetric under exchange of the two halo masses, has one entry per redshift only when redshift dependence is requested, and depends only on the current parameters, not on earlier updates or reads.",
 ["inputs","histories","configurations"],"all cosmologies inside and outside the supported box, both amplitude conventions, with and without redshift dependence, all update/read sequences",
 "The emulator-based tests use one cosmology inside the box and one freshly built object.",
 [S+"bnl.py"],[("range clamping","NonLinearBias.test_cosmo"),("sigma8 rescaling","NonLinearBias.emulator"),("mirrored upper triangle, nearest-grid lookup","NonLinearBias.compute_bnl_darkquest, bnl")])
p("C05","Model objects, their clones and the caller's inputs do not influence each other",
 "Updating or reading one model object never changes the parameters or results of another object, be it a clone, an object built from the same option dictionaries or arrays, or a component of a combined model. Option dictionaries and arrays that a caller passes in are never modified, and results already handed out keep their values when the object is updated later.",
 ["histories","programs"],"all interleavings of create, clone, update and read over several objects sharing inputs",
 "Tests use a single object; leakage needs two objects that share a dictionary, array or cache and a particular interleaving.",
 [S+"pk.py",S+"hmi.py",S+"add.py",S+"ia.py"],[("setters copy option dictionaries","dictionary parameters in pk.py, hmi.py, add.py"),("clone is a deep copy","hmf Framework.clone"),("redshift loop works on copies","HaloModelIngredients._hmf_generator")])
p("C06","Unsupported or inconsistent settings are rejected, supported ones accepted",
 "Every unsupported non-linear correction, ingredient set, alignment dependence law, transform method, occupation or shot-noise model, inconsistent combination of them, mis-shaped input spectrum, missing pivot or missing luminosity catalogue is rejected with an error when it is set or first used. Every supported combination is accepted and evaluates. A rejected change leaves the parameters it names usable: setting valid values afterwards gives the same results as a new object.",
 ["configurations","inputs","histories"],"all combinations of option values, supported and unsupported, at construction and at update",
 "Tests try a few single bad values at construction; combinations, updates and recovery after a rejection are not reached.",
 [S+"pk.py",S+"hmi.py",S+"ia.py",S+"utils/poisson.py"],[("value validation","nonlinear_mode, hmcode_ingredients, central_ia_depends_on, satellite_ia_depends_on, method, ell_max setters"),("combination validation","Spectra.validate"),("input shape check","Spectra._pk_lin, _pk_nl")])
p("C07","Matter spectra are composed of the right one- and two-halo terms in every mode",
 "In every combination of non-linear correction, ingredient set, damping, baryonic feedback and truncation option, the matter one-halo, two-halo and total spectra are the documented combination of halo abundance, bias, profiles (with feedback where selected), linear power and truncation factors for that mode. The total is the sum of the two terms except in the transition-smoothed mode, and in two-halo integrals the mass below the resolved range is accounted for so that matter is unbiased on large scales.",
 ["configurations","inputs"],"all option combinations and parameter values",
 "Tests pin a few modes at one parameter point with loose array comparisons; most option combinations are never evaluated.",
 [S+"pk.py"],[("matter spectrum per mode","Spectra._power_spectrum_mm, matter_profile*, Im_term, A_term"),("truncations and smoothing","one_halo_truncation*, two_halo_truncation*, transition_smoothing")])
p("C08","Galaxy and galaxy-matter spectra are composed of the right terms in every mode",
 "In every option combination, galaxy-galaxy and galaxy-matter one-halo, two-halo and total spectra and the reported linear bias are the documented combination of central and satellite profiles normalised by their own number densities and weighted by their fractions, the satellite shot-noise function, the matter profile selected by the mode, linear power and truncation factors. Central-satellite pairs are counted twice in the galaxy auto-spectrum and satellite pairs once, weighted by the shot-noise function.",
 ["configurations","inputs"],"all option combinations, occupation models and parameter values",
 "Tests pin the default mode at one parameter point.",
 [S+"pk.py",S+"utils/poisson.py"],[("galaxy spectra","Spectra.power_spectrum_gg, power_spectrum_gm, Ic_term, Is_term, central_galaxy_profile, satellite_galaxy_profile, poisson_func")])
p("C09","Alignment spectra are composed of the right terms, signs and truncations",
 "In every option combination, the matter-intrinsic, intrinsic-intrinsic and galaxy-intrinsic one-halo, two-halo and total spectra are the documented combination of central and satellite alignment profiles, amplitudes, growth, mass scaling, effective power and alignment truncation factors for that mode, with matter-intrinsic power of opposite sign to the alignment amplitude. In the effective-power mode the two-halo terms contain only the central contribution and use the requested mixture of linear and non-linear power.",
 ["configurations","inputs"],"all option combinations and parameter values",
 "Tests pin the default mode at one parameter point.",
 [S+"pk.py",S+"ia.py"],[("alignment spectra","Spectra.power_spectrum_mi, power_spectrum_ii, power_spectrum_gi, Ic_align_term, Is_align_term, central_alignment_profile, satellite_alignment_profile, peff")])
p("C10","Response mode rescales every spectrum by the same matter ratio",
 "With the response option on, the matter spectrum reported is exactly the supplied (or internally computed) non-linear matter power, and every other spectrum and each of its one- and two-halo parts is its value with the option off multiplied by the ratio of that non-linear power to the halo-model matter power. This holds whatever was read before and in every non-linear mode; linear biases are unchanged by it.",
 ["configurations","histories","inputs"],"all modes, all spectra and components, any read order",
 "One test checks one spectrum; modes, components and read orders are not combined.",
 [S+"pk.py"],[("response scaling","Spectra.power_spectrum_mm and the response branches of power_spectrum_gg/gm/mi/ii/gi")])
p("C11","The non-linear halo bias correction enters every spectrum consistently",
 "With the non-linear halo bias mode on, each two-halo term gains the linear power times the double mass integral of the correction over the two tracers' profiles, including the contribution of mass below the resolved range, and no large-scale damping is applied. A zero correction gives the undamped two-halo terms, the added power is linear in the correction, and supplying the correction or having it computed from the emulator gives the same spectra.",
 ["configurations","inputs"],"all spectra, supplied and computed corrections, all correction arrays",
 "Tests only check shapes or one spectrum in this mode.",
 [S+"pk.py",S+"bnl.py"],[("double mass integral","Spectra.I_NL, prepare_I12/I21/I22_integrand, trapezoidal_integrator"),("use per spectrum","bnl branches of power_spectrum_*")])
p("C12","Halo occupation numbers, densities, fractions and biases follow each model",
 "For every occupation model and parameter set, mean central and satellite occupation follow the model's definition, including step-function limits and assembly-bias decorations, and total occupation is their sum. Number densities, average halo masses, galaxy biases and population fractions are the corresponding abundance-weighted mass integrals, so that central and satellite densities add up to the total and fractions add up to one.",
 ["inputs","configurations"],"all occupation models, decorations, parameter values (including limits), bins and redshifts",
 "Tests compare a few default-parameter arrays with stored values; limits (zero scatter, cut-off masses, decorations) and multi-bin cases are not covered.",
 [S+"hod.py"],[("occupation definitions","Cacciato, Simple, Zehavi, Zheng, Zhai in hod.py"),("mass integrals","HaloOccupationDistribution.number_density*, f_c, f_s, avg_halo_mass*, galaxy_linear_bias*")])
p("C13","Galaxy samples: bins, redshift ranges, files and units are honoured",
 "Occupation quantities of each sample are defined on its own redshift and observable range, given directly or by a file, and carried to the model redshifts by linear interpolation; population fractions and average masses vanish outside the sample's redshift range while densities and occupations are extrapolated. Stellar fractions carry one factor of the Hubble parameter exactly for the unit convention that needs it and are zero for models without an observable. Observable functions are the abundance-weighted integral of the conditional functions.",
 ["inputs","configurations"],"all sets of bins, redshift ranges relative to the model grid, file or direct definition, unit conventions",
 "Tests use one sample definition whose range covers the model grid.",
 [S+"hod.py",S+"pk.py"],[("sample bookkeeping","HaloOccupationDistribution.z, nbins, nz, obs, data, _interpolate, stellar_fraction*"),("observable functions","Cacciato.COF*, obs_func*, Spectra.obs_func*")])
p("C14","Mixing two populations weights each spectrum correctly on the output grid",
 "A combined model reports, at every requested wavenumber and redshift, the matter spectrum of the first population, fraction-weighted sums for spectra with one galaxy leg, and squared-fraction-weighted sums for spectra with two, with the fraction interpolated to the output redshifts. With no fraction given it reports the first population alone, and on grid points of the model the interpolated spectra equal the model's own.",
 ["inputs","configurations"],"all fractions, output grids (inside, outside and on the model grid), spectra and components",
 "Tests check shapes for one grid and fraction.",
 [S+"add.py"],[("mixing and interpolation","UpsampledSpectra.add_spectra, extrapolate_spectra, frac_1, frac_2, results")])
p("C15","Results of one galaxy sample do not depend on the other samples in the request",
 "When several galaxy samples are evaluated together, the occupation quantities and spectra of each sample equal those obtained when it is evaluated alone, in any order, with any other samples and also when repeated. The matter spectrum does not depend on the samples at all.",
 ["inputs","configurations"],"all lists of samples, orders and multiplicities, in all modes",
 "Tests use one or two fixed samples and compare shapes.",
 [S+"hod.py",S+"pk.py"],[("sample axis","leading axis of hod.py quantities and of the galaxy/alignment spectra in pk.py")])
p("C16","Halo ingredients and matter spectra at one redshift do not depend on the others",
 "When several redshifts are evaluated together, the halo abundance, bias, profiles, concentrations, radii, overdensities, growth and matter spectra at each redshift equal those obtained when that redshift is evaluated with any other list, order or repetition of redshifts. This holds for all mass definitions and ingredient sets, for central and satellite haloes alike.",
 ["inputs","configurations"],"all redshift lists, orders and multiplicities, mass definitions and ingredient sets",
 "Tests use one fixed grid; leakage between consecutive redshifts shows only when two lists are compared.",
 [S+"hmi.py",S+"pk.py"],[("per-redshift evaluation","HaloModelIngredients._hmf_generator and the quantities built from it")])
p("C17","Each parameter changes exactly the results that depend on it in that mode",
 "In each mode, changing one parameter leaves every result unchanged that does not depend on it there: one-halo options leave two-halo terms, alignment options leave galaxy and matter spectra, occupation options leave matter spectra, satellite options leave central quantities, and parameters fixed by the selected ingredient set have no effect. Conversely every parameter that the selected mode uses does change the results it is documented to control.",
 ["inputs","configurations"],"all pairs of parameter and result in all modes",
 "Tests never compare results across a single-parameter change over the whole parameter-by-result matrix.",
 [S+"pk.py",S+"hmi.py",S+"hod.py",S+"ia.py"],[("mode branches select which parameters are used","hmcode branches in hmi.py, nonlinear_mode/pointmass/response branches in pk.py")])
p("C18","Alignment amplitudes follow the selected law; kernels use one mass grid",
 "Central and satellite alignment amplitudes follow the selected law at every redshift: constant, averaged over the luminosities of the galaxies in that redshift slice with a single or broken power law around the pivot, or constant with mass scaling left to the spectra. The radial alignment kernel is evaluated at one consistent set of halo masses containing the lightest and the heaviest, is proportional to the satellite amplitude below saturation, and equals the angular multipole sum of its radial transforms.",
 ["inputs","configurations"],"all dependence laws, catalogues, pivots and slopes, all mass-grid sizes and subsampling targets, both transform methods",
 "Tests use one catalogue-free law and one grid size.",
 [S+"ia.py"],[("amplitude laws","AlignmentAmplitudes.alignment_gi, gamma_1h_amp, compute_luminosity_pdf, broken_powerlaw, mean_l_l0_to_beta"),("subsampling and kernels","SatelliteAlignment._downsample, wkm_f_ell, upsampled_wkm")])
p("C19","Pipeline results for a parameter point do not depend on earlier points",
 "Executing the pipeline module on a sequence of parameter points gives for each point the same output as a newly set-up module given that point alone, whatever points came before, apart from the documented reuse of the non-linear bias between refreshes. Executing the same point again reproduces its output.",
 ["histories","configurations"],"all sequences of sampled parameter points for every module configuration",
 "The pipeline module has no tests in the repository; a sampler calls it thousands of times on one persistent model object.",
 ["cosmosis_modules/onepower_interface.py",S+"pk.py"],[("persistent model updated for each point","execute and setup in onepower_interface.py")])
p("C20","Pipeline options reach the model and results reach the right output sections",
 "For every combination of requested spectra, population names and number of samples, the pipeline module evaluates the model with the option and parameter values from its inputs (central and satellite settings to their own population, text 'None' meaning no value, per-sample parameters to their sample) and writes each requested spectrum, component and occupation quantity of each sample to its own section and name. Spectra that were not requested are not written, and the supplied non-linear matter power is not overwritten in response mode.",
 ["configurations","inputs"],"all combinations of requested spectra, samples, suffixes and options",
 "The pipeline module has no tests in the repository.",
 ["cosmosis_modules/onepower_interface.py"],[("option mapping","setup, setup_hod, setup_hod_settings*, setup_hmf_config, get_string_or_none, execute"),("output mapping","save_* functions and execute")])
p("C21","The pipeline refreshes the non-linear bias exactly on schedule",
 "In non-linear bias mode the pipeline recomputes the bias correction from the current cosmology at the first call and then at every n-th call as configured, and in between uses exactly the last computed correction. Each configured module keeps its own schedule, and the refreshed correction is the one used for that same call.",
 ["histories","configurations"],"all call sequences, refresh intervals and numbers of modules",
 "The pipeline module has no tests; the schedule is a property of call histories.",
 ["cosmosis_modules/onepower_interface.py"],[("call counter and cache","cached_bnl in setup/execute")],[("num_calls","calls made so far","cached_bnl"),("cached_bnl","last correction","cached_bnl")])
p("C22","Halo ingredients are computed with the selected models and cosmology",
 "At every redshift, halo abundance, bias, concentration, profiles, radii, densities and linear and non-linear power are those of the underlying halo library evaluated with exactly the user's cosmology, mass range and selected models, satellites using their own profile, concentration, normalisation and bloating. In the calibrated ingredient sets the calibrated abundance, bias, concentration, collapse threshold, overdensity and bloating replace the user's choices, and in the virial mass definition threshold and overdensity follow the cosmology.",
 ["configurations","inputs"],"all ingredient sets, mass definitions, model choices, cosmologies and redshifts",
 "Tests compare stored arrays for the default choice.",
 [S+"hmi.py"],[("ingredient selection","HaloModelIngredients._*_mod, mdef_params, K, _hmf_generator; CosmologyBase.cosmo_model")])
p("C23","Real-space pipeline modules project, correct and convert faithfully",
 "The projection module writes for every sample the redshift-kernel-weighted transform of that sample's own spectrum, proportional to the spectrum and independent of the other samples, together with the separations and labels downstream modules need. The cosmology-correction module rescales each sample and its separations by the ratios of distances and expansion rates between analysis and fiducial cosmology, leaving data unchanged when the two agree, and the angle module converts values and unit label together and consistently.",
 ["inputs","configurations","histories"],"all numbers of samples, kernels, units, cosmologies and module call sequences",
 "These modules have no tests in the repository.",
 ["cosmosis_modules/pk_to_real/pk_to_real.py","cosmosis_modules/pk_to_real/correct_cosmo_real.py","cosmosis_modules/convert_theta/convert_theta.py"],[("projection","CosmosisTransformer.__call__"),("correction","correct_cosmo_real.execute"),("units","convert_theta.execute")])
p("C24","Spectra converge to the exact halo-model integrals with grid resolution",
 "As the mass, wavenumber and redshift grids are refined, all spectra converge to the exact halo-model integrals and agree with independent halo-model codes to per-cent accuracy.",
 ["inputs","configurations"],"all cosmologies and grids",
 "Convergence and accuracy cannot be shown at one resolution.",
 [S+"pk.py",S+"hmi.py"],[("Simpson and trapezoidal integration","Spectra.compute_1h_term, I_NL")])
p("C25","Non-linear bias correction is formed from the emulator's halo spectra",
 "At every requested wavenumber, pair of masses and redshift, the non-linear bias correction is the upper envelope of the emulator's halo spectrum, less shot noise, divided by the linear power and the linear biases of the two masses, less its value at the large-scale reference wavenumber. It is switched off below the reference scale and above the scales resolved for the lightest haloes, and taken at the nearest tabulated masses and wavenumber, also outside the tabulated range.",
 ["inputs","configurations"],"all masses, wavenumbers, redshifts and cosmologies",
 "The tests of this part are skipped without the emulator's data.",
 [S+"bnl.py"],[("formation","NonLinearBias.compute_bnl_darkquest, hl_envelopes_idx, low/high_k_truncation"),("look-up","bnl, create_bnl_interpolation_function, minimum_halo_mass")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        print(x["id"],len(x["title"])) if len(x["title"])>80 else None
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
