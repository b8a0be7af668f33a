COMMON = ' Trusted: TLC, the Python recorder that turns floating point values into integers and residuals, numpy/scipy.'
NOTE['C01'] = (('Entry.tla', 'flights generated by EntryGen and recorded flights judged by EntryTrace'),
  'Design explored exhaustively for small altitude sequences; every generated altitude history is replayed into the real classifier and truncation, and recorded flights over all planets, both integrators and all outcomes are judged sample by sample.' + COMMON)
NOTE['C02'] = (('Corridor.tla', 'bracket cases of CorridorGen replayed into the real searches, real searches judged by CorridorTrace'),
  'Bisection design explored exhaustively; generated outcome maps are replayed into all search methods, and searches on real planets are compared with independent flights on both sides of the returned angle. Bounded by the sampled configurations.' + COMMON)
NOTE['C03'] = (('History.tla', 'call histories of HistoryGen replayed, judged by HistoryTrace'),
  'All call histories up to a length bound are replayed on the real vehicle; after each call every configuration value is compared bit by bit and results with those of a fresh vehicle.' + COMMON)
NOTE['C04'] = (('Predict.tla', 'recorded predictions judged by PredictTrace'),
  'Copy/heap design explored exhaustively; predictions, also those made inside guided flights, are compared with flights of freshly built vehicles and every attribute is compared before and after.' + COMMON)
NOTE['C05'] = (('Guidance.tla', 'every guidance cycle of recorded flights judged by GuidanceTrace'),
  'Guidance design explored exhaustively up to a cycle bound; every cycle of real guided flights is flown again by a fresh vehicle and the chain is judged cycle by cycle. Bounded by the sampled flights.' + COMMON)
NOTE['C06'] = (('Guidance.tla', 'roll cases of RollGen replayed, recorded cycles judged by BankTrace'),
  'Roll controller enumerated on a grid of angles, rates and steps from the specification; bank angle of every cycle of real flights compared with an independently computed guidance law and the design of the roll controller and phase switch.' + COMMON)
NOTE['C07'] = (('Guidance.tla', 'recorded cycles judged by JettisonTrace'),
  'Jettison design explored exhaustively up to a cycle bound; each cycle of real drag modulation flights is flown again with and without skirt, predictions are recomputed to decide the jettison cycle.' + COMMON)
NOTE['C08'] = (('Loads.tla, Heating.tla', 'flight histories of LoadsGen replayed, every sample judged by LoadsTrace'),
  'Heat load chain design explored exhaustively; all short histories of flights, continuations, restarts and nose radius sweeps replayed; every sample of every flight compared with independently computed loads. Bounded by the sampled vehicles.' + COMMON)
NOTE['C09'] = (('Campaign.tla', 'campaigns cut off at every file operation judged by CampaignTrace'),
  'Campaign design with interruption at every file operation explored exhaustively; real campaigns of all five kinds are cut off before each of their file operations, and what is left on disk is compared with flights of freshly built vehicles.' + COMMON)
NOTE['C10'] = (('Atmosphere.tla', 'files and draw sequences of AtmosphereGen replayed into the real loaders, judged in exact integer arithmetic by SampleTrace'),
  'Sampling design explored exhaustively on small tables; generated files of all shapes up to 3 profiles of 4 rows with every dispersion side are loaded by the real code and every sample is compared with the specification at all quarter altitudes; real data files sampled.' + COMMON)
NOTE['C11'] = (('Atmosphere.tla', 'load and query histories of QueryGen replayed, judged in exact integer arithmetic by QueryTrace'),
  'Query design explored exhaustively on small tables; all short histories of loading, moving the top of the atmosphere and querying replayed on all planets; spline tables and conversions compared with independent computations.' + COMMON)

NOTE['C12'] = (('Dynamics.tla', 'flight cases of DynamicsGen replayed, recorded flights judged by DynamicsTrace'),
  'Symmetries and balances of the flight equations are derived on an integer lattice design; generated flights over all planets, both integrators and vacuum/atmosphere are judged by conservation, energy balance and derivative residuals. Bounded by the sampled flights.' + COMMON)
NOTE['C13'] = (('Launch.tla', 'performance tables and queries of LaunchGen replayed, judged by LaunchTrace'),
  'Interpolation design explored exhaustively on small tables; every launcher table and generated catalogues are queried through the real code and compared in and out of range.' + COMMON)
NOTE['C14'] = (('Orbital.tla', 'orientation and arrival lattice of ApproachGen replayed, judged by ApproachTrace'),
  'Conic orientation algebra explored exhaustively on a lattice; every planet, arrival octant, speed class and aim angle replayed into the real class and compared with the hyperbola built from vectors.' + COMMON)
NOTE['C15'] = (('Conic.tla', 'lattice of deflections of DeflectGen replayed, judged by DeflectTrace'),
  'Two-body identities (Lagrange coefficients, energy, momentum) decided in exact integer arithmetic; every pair of vehicles, planet, arrival octant, aim angle pair and distance class replayed, and the conic after the manoeuvre is built from vectors and judged by whether it passes the second periapsis at the reported time.' + COMMON)
NOTE['C16'] = (('Conic.tla, Mission.tla', 'missions of OrbitGen replayed, judged by OrbitTrace'),
  'Two-body identities decided in exact integer arithmetic and mission chains explored exhaustively up to an operation bound; generated exit geometries and call histories replayed into the real classes, every leg compared with the orbit built from the state vectors before it.' + COMMON)
NOTE['C17'] = (('View.tla', 'observers of ViewGen replayed, every time judged by ViewTrace'),
  'Occultation rule proved equal to its definition and lander rotation explored exhaustively on an integer lattice; landers and orbiters on every planet replayed through the real classes with the built-in ephemeris (the SPICE kernel is not in the repository), every sample judged against independently computed geometry.' + COMMON)
NOTE['C18'] = (('Link.tla', 'passes and link descriptions of LinkGen replayed, judged in integer arithmetic by LinkTrace'),
  'Schedule, volume and ledger design explored exhaustively; all lists of up to two windows over seven end points with all sight patterns (sampled in quick) and all pairs of antenna descriptions replayed, each flag, volume and budget decided by the specification.' + COMMON)
