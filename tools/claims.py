CLAIMS = {
 'C01': ('TLA+ session specification; TLC-generated behaviours replayed on Spectra, recorded traces validated by TLC against the specification',
         'Every single-parameter change in 12 option profiles, every ordered pair of profiles with a change after the switch, and random sessions on two objects (clones included); a reading must be a function of the valuation alone, and newly created objects fix that function. Small grids; values compared to 1e-8.'),
}
NA = {
 'C24': 'numerical accuracy and convergence of quadrature in the reals; a finite-state specification has no oracle for the exact integrals, and the independent halo-model codes the statement refers to are not available offline',
}
_T = 'TLA+ halo-model composition specification (expression trees per option combination, checked by TLC); the exported terms are evaluated and compared with the real spectra, TLC judges the recorded comparison'
CLAIMS.update({
 'C07': (_T, 'All option combinations by pairwise-covering enumeration at random concrete cosmologies, grids and samples; leaves are public ingredients of separate objects, comparison to 1e-7.'),
 'C08': (_T, 'As C07, for the galaxy spectra and linear biases.'),
 'C09': (_T, 'As C07, for the alignment spectra.'),
 'C10': ('TLA+ specification of response switching (Response.tla); TLC-simulated behaviours replayed on Spectra and the recordings judged by TLC', 'Random sessions over modes, response on/off, supplied or internal non-linear power, all spectra and parts.'),
 'C11': ('TLA+ specification of the non-linear bias term (NonLinTerm.tla, HaloModel.tla); TLC-generated behaviours replayed on Spectra with a stand-in emulator, recordings judged by TLC', 'Linearity, undamped limit, supplied versus computed correction over random sessions; composition of the bnl configurations; comparison to 1e-7.'),
})
_S = 'TLA+ session specification (Session.tla) with the parameter and result table of this object; TLC-generated behaviours replayed on the real object, recorded traces validated by TLC against the specification'
CLAIMS.update({
 'C02': (_S, 'UpsampledSpectra and its component models: single changes in every profile, profile switches, random sessions; values compared to 1e-8.'),
 'C03': (_S, 'CentralAlignment / SatelliteAlignment calculators over laws, methods, catalogues and grids; values compared to 1e-8.'),
 'C04': ('TLA+ specification of the emulator hand-over (NonLinBias.tla) and of its session (BnlTable.tla); TLC-generated parameter points and sessions replayed on NonLinearBias with a stand-in emulator that records its inputs, recordings judged by TLC', 'All below/inside/above combinations of the limits, both amplitude conventions, both redshift settings; symmetric masses; random sessions. The emulator itself is a stand-in.'),
 'C05': ('TLA+ specification of isolation between objects, inputs and handed-out results (Isolation.tla); TLC-generated behaviours replayed, recordings judged by TLC', 'Random histories over up to three objects, shared dictionaries and arrays, clones and combined models.'),
 'C06': ('TLA+ specification of supported settings (Options.tla); TLC-generated attempts replayed on Spectra, the alignment calculator and the bias calculator, recordings judged by TLC', 'Every single unsupported value from the supported configurations, random combinations of all options, and recovery after rejection.'),
})
_X = 'TLA+ expression specification ({}) of every quantity, explored by TLC; the exported terms are evaluated and compared with the real objects, TLC judges the recorded comparison'
CLAIMS.update({
 'C12': (_X.format('Hod.tla'), 'All occupation models with limits and decorations, several bins, random parameter values; comparison to 1e-7.'),
 'C13': (_X.format('Hod.tla, sample variants'), 'Sample ranges inside, overlapping and outside the model grid, direct and file definitions, both unit conventions.'),
 'C14': (_X.format('Mixing.tla'), 'All spectra and parts, fractions scalar or per redshift, output grids inside, outside and on the model grid.'),
 'C15': ('TLA+ pointwise specification (Pointwise.tla): a result is a function of its own point only; TLC-generated lists of samples replayed on the real objects, recordings judged by TLC', 'Random lists, orders and repetitions of samples in every mode; comparison to 1e-8.'),
 'C16': ('TLA+ pointwise specification (Pointwise.tla): a result is a function of its own redshift only; TLC-generated redshift lists replayed on the real objects, recordings judged by TLC', 'Random lists, orders and repetitions of redshifts in all mass definitions and ingredient sets.'),
 'C17': ('TLA+ influence specification (Influence.tla) derived from the documented branches; TLC enumerates parameter, result and mode, the recorded single-parameter changes on real objects are judged by TLC', 'Whole parameter-by-result matrix in every mode profile, several random values per parameter.'),
})

CLAIMS.update({
 'C18': (_X.format('Alignment.tla'), 'Both alignment calculators in all laws and methods, several grids, populations and radial slopes; angular multipoles compared to 5e-4 (they are tabulated), everything else to 1e-7.'),
 'C19': ('TLA+ pipeline specification (Pipeline.tla, with faulty schedules as negative controls); TLC-generated histories of two interface modules over five kinds of points replayed on the real module, recordings judged by TLC', 'Without non-linear bias: random interleaved histories, output of every execution compared with that of a module set up for this point alone, exactly the same places and values.'),
 'C20': ('TLA+ interface specification (Interface.tla: sources of every model parameter, places of every output); TLC-generated configurations executed on the real module, recordings judged by TLC', 'Covering enumeration plus random combinations of all options; every written place compared with a model built from the table of sources; data block is a stand-in.'),
 'C21': ('TLA+ pipeline specification (Pipeline.tla) with the refresh schedule, invariants checked by TLC with negative controls; TLC-generated histories replayed on the real module with a stand-in emulator, recordings judged by TLC', 'Refresh intervals 1 to 3, two modules, five kinds of points; results compared with a model given the correction of the scheduled point.'),
 'C22': (_X.format('Ingredients.tla'), 'All mass-definition, function, bias, concentration and profile selections by covering enumeration at random cosmologies; leaves are the library called directly, growth by an independent integration.'),
 'C23': ('TLA+ specification of the real-space modules (RealSpace.tla) as a state machine over block contents, invariants checked by TLC; TLC-generated behaviours replayed on the real modules, contents compared with the specified expressions, recordings judged by TLC', 'Random module configurations and interleavings on two blocks, one to three samples, both projection algorithms, all units and cosmology classes; comparison to 1e-6; data block is a stand-in; one known finding.'),
})
CLAIMS.update({
 'C25': (_X.format('BiasForm.tla'), 'All combinations of redshift dependence, masses and wavenumbers inside and outside the table, supported and clamped cosmologies, random values; comparison to 1e-6; the emulator is a stand-in.'),
})
