#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the text stays readable). Run: python3 lib/mkprops.py"""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Every target's redshift comes from that target's own spectra",
  "Whatever the number of spectra per target, the order of the targets, and the number of worker processes or MPI ranks, the scan and the best fits reported under a target identifier are those computed from that target's own spectra. No target is lost, duplicated or reported under another target's identifier.",
  ["inputs","configurations","schedules"],"every assignment of spectra counts to targets, every input order, every worker count 1..n, every order in which workers deliver their results",
  "The tests use two targets with the same number of spectra, so the load-balanced order equals the input order and a swap of identifier and data is invisible.",
  ["py/redrock/zscan.py","py/redrock/zfind.py","py/redrock/targets.py"],
  [("load-balanced distribution of identifiers and the list of target objects that goes with it","py/redrock/zscan.py calc_zchi2_targets; py/redrock/targets.py DistTargetsCopy, distribute_targets"),("per-worker result tuples tagged with a worker index","py/redrock/zscan.py _mp_calc_zchi2"),("per-target result tuples","py/redrock/zfind.py _mp_fitz")],
  [("mpdist","worker -> identifiers","py/redrock/zscan.py"),("results","identifier -> template -> scan and fits","py/redrock/zfind.py")],["return value of calc_zchi2_targets","return value of zfind"])

p("C02","Results do not depend on how the work is parallelised",
  "Serial execution, multiprocessing with any number of workers, and MPI with any number of ranks return the same table of best fits and the same scan for the same targets and templates. Rows come in the same order, whichever worker or rank finishes first.",
  ["schedules","configurations","inputs"],"every worker/rank count, every completion order of the workers, every interleaving of the ranks",
  "The tests compare one parallel run (2 workers, two equal targets) against a known answer; no MPI path is run at all.",
  ["py/redrock/zscan.py","py/redrock/zfind.py","py/redrock/templates.py","py/redrock/targets.py"],
  [("serial branch / multiprocessing branch / MPI ring branch","py/redrock/zscan.py calc_zchi2_targets"),("final loop over the global ordered identifier list","py/redrock/zfind.py zfind")],
  [("allzfit","final table","py/redrock/zfind.py")],["return value of zfind"])

p("C03","The ring of redshift slices visits every slice on every rank, and stops",
  "In an MPI run every rank evaluates every redshift of every template exactly once for each of its targets, the assembled scan is in the template's redshift order, and the pass over each template terminates with each rank holding its own slice again. This holds for any number of ranks, including more ranks than redshifts and ranks without targets, and no interleaving or message-buffering behaviour deadlocks.",
  ["schedules","configurations"],"every interleaving of ranks, eager and synchronous sends, 1..n ranks, any slice sizes (also empty), any number of targets per rank",
  "No test runs with a communicator, so the ring is never executed.",
  ["py/redrock/templates.py","py/redrock/zscan.py"],
  [("non-blocking send to the next rank, receive from the previous, wait","py/redrock/templates.py DistTemplate.cycle"),("slices assembled by slice index","py/redrock/zscan.py calc_zchi2_targets"),("contiguous split of the redshifts","py/redrock/templates.py DistTemplate.__init__")],
  [("piece","the slice a rank holds","py/redrock/templates.py DistTemplate._piece")],["communicator calls made by each rank","return value of calc_zchi2_targets on each rank"])

p("C04","Root collects every rank's results exactly once, in any number of batches",
  "At the end of an MPI run the root process holds the results of all targets of all ranks, each exactly once and unchanged, however many targets each rank has, and every other process returns no result. The number of messages announced always equals the number sent, so the exchange neither blocks nor leaves messages behind.",
  ["configurations","inputs","schedules"],"every number of targets per rank, in particular around the batch size, any number of ranks, any interleaving",
  "No test runs with a communicator; the batch boundary needs thousands of targets on one rank.",
  ["py/redrock/zfind.py"],
  [("announce number of batches, then send batches; root receives rank by rank","py/redrock/zfind.py zfind")],
  [("num_batches","announced number of messages","py/redrock/zfind.py")],["messages on the communicator","return value of zfind on each rank"])

p("C05","Work is partitioned over processes and load balanced",
  "Distributing work items over processes gives every item to exactly one process, for any weights, capacities and process counts. Items are placed heaviest first, each on the process whose load divided by capacity would be smallest after receiving it, ties going to the larger capacity and then to the lower process number.",
  ["inputs","configurations"],"every list of items and weights, every capacity list, every number of processes including more processes than items",
  "The tests check four fixed examples.",
  ["py/redrock/utils.py","py/redrock/targets.py","bin/wrap-redrock"],
  [("greedy longest-processing-time assignment","py/redrock/utils.py distribute_work"),("weight = number of spectra","py/redrock/targets.py distribute_targets"),("greedy partition of files over nodes","bin/wrap-redrock weighted_partition")],
  [("load","accumulated weight per process","py/redrock/utils.py")],["return value"])

p("C06","A worker that fails makes the run fail instead of hanging or losing targets",
  "If a worker process raises an exception or dies at any point of the scan or of the fitting, the calling process ends with an error in bounded time. It never waits for ever and never returns results in which targets are missing.",
  ["fault_sequences","crash_points","schedules"],"every worker, every point (before, between and after the targets it processes), exception or kill, every order of the other workers' completion",
  "No test makes a worker fail.",
  ["py/redrock/zscan.py","py/redrock/zfind.py"],
  [("progress queue and result queue between workers and parent","py/redrock/zscan.py calc_zchi2_targets"),("result queue","py/redrock/zfind.py zfind")],
  [("tot","targets whose progress was reported","py/redrock/zscan.py")],["outcome of calc_zchi2_targets and zfind within a deadline"])

p("C07","Candidate redshifts are the lowest, well-separated local minima of the scan",
  "For each template the candidates are taken from the local minima of the scan (edges and plateaus included) in increasing order of value, skipping any within the velocity separation of an already accepted candidate (1000 km/s, 100 km/s for stars), before and after refinement, until the requested number is reached. The candidates returned are sorted by chi-squared and any two of them are at least the velocity separation apart.",
  ["inputs"],"every scan shape (ties, plateaus, minima at the edges, many minima), every redshift grid spacing, every requested number, stars and non-stars",
  "The tests look at one smooth scan per template; separation, plateaus, exhaustion and reordering after refinement are not reached.",
  ["py/redrock/fitz.py"],
  [("local minima sorted by value","py/redrock/fitz.py find_minima"),("velocity separation tests before and after refinement","py/redrock/fitz.py fitz")],
  [("results","accepted candidates so far","py/redrock/fitz.py fitz")],["return value of find_minima","return value of fitz"])

p("C08","Every refined redshift is a fit inside its window or is flagged",
  "A candidate's redshift, uncertainty and chi-squared are those of the parabola through the three finest-grid points around the lowest one, and its coefficients those of the fit at the redshift of that parabola; when the parabola is not a minimum strictly inside those points, or its minimum value is not positive, the bad-fit warning is set, and when it leaves the refinement window the redshift is that of the lowest finest-grid point. The finest grid lies evenly between the scanned redshifts on both sides of the candidate, its chi-squared at each redshift is that of the best fit (with the galaxies' penalty for negative [OII] of that fit), and the refined redshift lies in it. A redshift beyond the second or the last but one scanned redshift carries the fit-limit warning, and no other candidate carries either warning.",
  ["inputs"],"every triple of points, every position of the minimum relative to window and scan range",
  "The tests call the parabola fit with a handful of values and check flags for one edge case.",
  ["py/redrock/fitz.py","py/redrock/zwarning.py"],
  [("parabola fit with failure flags","py/redrock/fitz.py minfit"),("edge and out-of-window handling","py/redrock/fitz.py fitz")],
  [("zwarn","warning bits of a candidate","py/redrock/fitz.py")],["return value of minfit","return value of fitz"])

p("C09","The best fit is the lowest chi-squared acceptable fit, with gapless ranks",
  "For every target the candidates of all templates are ranked with good fits before fits carrying a bad-fit warning and then by increasing chi-squared, with ranks 0,1,2,... without gaps; rank 0 is the reported redshift. For each spectral type exactly the best candidates up to the requested number are kept, over all its subtypes, and every row keeps the values of one and the same candidate.",
  ["inputs"],"every set of candidates over templates and subtypes, every pattern of warnings, every requested number",
  "The tests run one galaxy template on two targets; subtypes, trimming and flagged fits never meet.",
  ["py/redrock/zfind.py"],
  [("stack, sort by (bad fit, chi2), keep nminima per type, sort again, number","py/redrock/zfind.py zfind, sort_zfit_dict")],
  [("tzfit","candidates of one target","py/redrock/zfind.py")],["table returned by zfind"])

p("C10","The chi-squared gap is to the next genuinely different good fit",
  "The reported gap of a candidate is the smallest chi-squared difference to a later ranked, not bad-fit-flagged candidate at a velocity distance above the smaller of the two separations, and zero when there is none. The small-gap warning is set exactly on the candidates for which some other good candidate at such a distance has a chi-squared that differs from theirs by less than 9, on either side.",
  ["inputs"],"every ranked list of candidates with any redshifts, chi-squared values, warnings and separations",
  "The tests check three hand-made lists with a constant separation.",
  ["py/redrock/zfind.py","py/redrock/constants.py","py/redrock/fitz.py"],
  [("gap and warning computation","py/redrock/zfind.py calc_deltachi2"),("velocity difference","py/redrock/fitz.py get_dv")],
  [("deltachi2","gap","py/redrock/zfind.py"),("zwarn","warning bits","py/redrock/zfind.py")],["return value of calc_deltachi2","table returned by zfind"])

p("C11","Missing data are flagged, never silently fitted",
  "A candidate's pixel count is the number of pixels with positive weight; with none the no-data warning is set, with fewer than ten per coefficient the little-coverage warning is set, and otherwise neither is set by the fit. A target without data still appears in the output, flagged, and does not change the other targets' results; bits reserved for downstream use are never set.",
  ["inputs"],"every pattern of masked pixels over the spectra of a target, every number of coefficients, targets without data anywhere in the list",
  "One test masks a whole spectrum; the thresholds and mixtures are not sampled.",
  ["py/redrock/zfind.py","py/redrock/fitz.py","py/redrock/zscan.py","py/redrock/zwarning.py"],
  [("count of positive weights","py/redrock/fitz.py fitz"),("NODATA and LITTLE_COVERAGE rules","py/redrock/zfind.py zfind"),("constant large chi2 for empty data","py/redrock/zscan.py calc_zchi2, calc_zchi2_batch")],
  [("npixels","pixels with positive weight","py/redrock/fitz.py")],["table returned by zfind"])

p("C12","Fiber status and object type map to the documented warnings and to nothing else",
  "In the DESI output every target with a broken, unassigned or badly positioned fiber or an unknown object type has the no-data warning, redshift 0, type GALAXY with empty subtype, zero coefficients and no fit method on all its rows, while all other targets keep their fit. Poor position, broken fiber, sky, bad amplifier and unknown object type set exactly their documented warning bits, and fit warnings are kept.",
  ["inputs"],"every combination of status bits and object types over the targets of a run",
  "The command-line tests need installed template data and are skipped; the mapping is never evaluated.",
  ["py/redrock/external/desi.py","py/redrock/zwarning.py"],
  [("status bits to warning bits by target identifier","py/redrock/external/desi.py rrdesi")],
  [("zwarn","warning bits","py/redrock/external/desi.py")],["redshift catalog and details file written by rrdesi"])

p("C13","The reader gives every selected target all of its own spectra, and nothing else",
  "Reading one or several spectra files yields exactly the selected targets, each once, in order of first appearance, each with all its rows from all files and bands, with the weight zeroed on masked, non-finite and strongly negative pixels and on pixels whose resolution integrates to less than 0.99, and every other value unchanged; coadded on reading, it has the coadd of these spectra with the threshold for cosmic rays that was asked for. The result is the same for every number of MPI ranks and the metadata tables hold exactly the rows of the selected targets.",
  ["inputs","configurations"],"every layout of targets over rows and files, every selection by identifier or range, coadded or not, every number of ranks",
  "The reader tests use one file in one layout and never a communicator.",
  ["py/redrock/external/desi.py"],
  [("row bookkeeping per file and target, two passes","py/redrock/external/desi.py DistTargetsDESI.__init__"),("broadcast of rows, batches for the resolution data","py/redrock/external/desi.py DistTargetsDESI.__init__")],
  [("target_specs","file -> target -> rows","py/redrock/external/desi.py")],["spectra of the local targets","fibermap tables"])

p("C14","Output files appear complete or not at all, whatever happens",
  "At every instant, and after a crash or a failed write at any point, the path of an output file holds either a complete result of this run or what it held before. A failed write is reported as an error.",
  ["crash_points","fault_sequences"],"every system call made while writing each kind of output (details, catalog, model), crash or I/O error at that call, output already present or not",
  "The tests only write successfully and read back.",
  ["py/redrock/results.py","py/redrock/external/desi.py","py/redrock/external/boss.py"],
  [("write to a temporary name, then rename","py/redrock/results.py write_zscan; py/redrock/external/desi.py write_zbest, write_bestmodel; py/redrock/external/boss.py write_zbest")],
  [("file at the output path","previous, complete or absent","file system")],["directory contents at every system call"])

p("C15","The details file gives back what was computed, target by target",
  "Reading back a details file returns, for every target, the scan of every template and all ranked fits as they were computed, up to the documented reduction to single precision, for all targets or for any selection, in upper or lower case. Everything that is written can be read back, including targets whose fit was overridden for bad data.",
  ["inputs","configurations"],"every set of targets, templates with and without subtypes, selections in any order, fits overridden or not",
  "One test writes and reads two targets with one template and no selection.",
  ["py/redrock/results.py"],
  [("nested groups per template and per target","py/redrock/results.py write_zscan, read_zscan, read_zfit"),("bytes/unicode conversion","py/redrock/utils.py encode_column")],
  [("zscan","target -> template -> arrays","py/redrock/results.py")],["return values of read_zscan, read_zfit, read_zscan_redrock"])

p("C16","Reusing a stored scan gives the fits of the original run",
  "A run given a stored scan fits the same targets with the same candidates as the run that made the scan, up to the scan's stored precision, serially, with workers and under MPI, and for any subset or reordering of the stored targets. Only the targets of the current run are reported.",
  ["configurations","inputs","schedules"],"serial, worker and MPI runs of any size; current targets a subset or permutation of the stored ones",
  "One test reuses a scan serially with the same targets in the same order.",
  ["py/redrock/zfind.py","py/redrock/results.py"],
  [("scan read by every process, fits added for the local targets, collected on root","py/redrock/zfind.py zfind"),("reader keyed by target identifier","py/redrock/results.py read_zscan_redrock")],
  [("results","identifier -> template -> scan and fits","py/redrock/zfind.py")],["return value of zfind"])

p("C17","A redshift prior changes only the targets it names, as documented",
  "A prior adds to the scan of the named target the documented penalty (Gaussian, Lorentzian or top-hat around its redshift) at every scanned redshift of every template, exactly once, and leaves every target it does not name as without prior. With a top-hat no candidate of a named target starts outside the window unless nothing of the template lies inside.",
  ["inputs","configurations"],"every prior file (subset of targets, function, centre, width), every grid, serial and parallel runs",
  "The tests evaluate each function once on one grid.",
  ["py/redrock/priors.py","py/redrock/zfind.py"],
  [("prior added to the scan before the minima are searched","py/redrock/zfind.py zfind"),("prior functions","py/redrock/priors.py Priors")],
  [("zchi2","scan with prior","py/redrock/zfind.py")],["Priors.eval","scan and table returned by zfind"])

p("C18","Moving spectra through shared memory loses nothing",
  "Packing spectra into shared memory and unpacking them, any number of times in any order and in any process, leaves wavelength, flux, weights and resolution unchanged, and every use of a packed spectrum sees the same data. Spectra of one target are packed and unpacked together and keep their order.",
  ["histories","inputs"],"every sequence of pack, unpack and use operations, with and without cached resolution, any array sizes including empty",
  "One test packs and unpacks once.",
  ["py/redrock/targets.py","py/redrock/utils.py"],
  [("pack/unpack with a state flag","py/redrock/targets.py Spectrum.sharedmem_pack, sharedmem_unpack, Rcsr"),("raw shared arrays","py/redrock/utils.py mp_array")],
  [("mpshared","whether the data live in shared memory","py/redrock/targets.py Spectrum._mpshared")],["arrays of the spectrum after each step"])

p("C19","A coadd is the weighted mean per wavelength grid and never uses masked pixels",
  "Coadding a target leaves one spectrum per wavelength grid, in order of first appearance, whose weight is the sum of the weights and whose flux and (diagonal by diagonal) resolution are the weighted means, and zero weight where no input has weight or where the resolution of the coadd integrates to less than 0.99. Spectra of one grid never mix with another's, the input is not needed again, and cosmic rejection only removes weight.",
  ["inputs"],"every list of spectra over grids, every pattern of zero weights, rejection on or off",
  "One test coadds one fixed target.",
  ["py/redrock/targets.py"],
  [("grouping by wavelength key and weighted sums","py/redrock/targets.py Target.compute_coadd")],
  [("spectra","list of spectra of the target","py/redrock/targets.py Target")],["spectra of the target after coadding"])

p("C20","A result can be traced back to exactly the templates that made it",
  "Template discovery returns exactly the requested files (list file, directory, single file or default), in order, and refuses missing ones; type and subtype survive the combined name; the header written with a result leads back to the same template files in the same order. A template that does not state what is needed to use it is refused rather than guessed.",
  ["inputs","configurations"],"every form of template argument, list files with comments, absolute and relative paths, every type/subtype, every header mix of file and version keys",
  "The tests cover some fixed headers; most need installed template data and are skipped.",
  ["py/redrock/templates.py","py/redrock/external/desi.py"],
  [("template discovery","py/redrock/templates.py find_templates, load_templates"),("header to file names","py/redrock/templates.py header2templatefiles, load_templates_from_header"),("header written with results","py/redrock/external/desi.py _get_header")],
  [("templates","ordered list of templates","py/redrock/templates.py")],["return values; headers of written files"])

p("C21","The batch driver processes every pending file and resumes safely",
  "The batch driver runs each input file whose catalog or details output is missing, on exactly one rank, retrying a failing one once, and never reruns a file whose two outputs exist. One file's failure (of its command, or because it cannot be read) never prevents the others, no earlier log is overwritten, and rerunning after an interruption, or with nothing left to do, finishes the remaining work and ends normally. The job that --plan prints does this work with the options the plan was made with, wherever it is started, on no more nodes than allowed; a plan or dry run changes nothing.",
  ["histories","fault_sequences","configurations"],"every history of runs with any subset of files failing, crashing between outputs or already done, any number of ranks, any log files left behind",
  "Nothing tests the batch driver.",
  ["bin/wrap-redrock"],
  [("todo list from existing outputs","bin/wrap-redrock find_specfiles"),("partition over ranks","bin/wrap-redrock group_specfiles, weighted_partition, plan"),("printed job","bin/wrap-redrock plan"),("two attempts, log rotation","bin/wrap-redrock run_redrock, backup_logs")],
  [("outputs","which of the two outputs exist per file","file system"),("logs","log files per output","file system")],["commands run, files present after each run"])

p("C22","Catalog, details and model agree row by row",
  "In every output of one run the row of a target in the redshift table, the fiber table and the model images belongs to the same target, and the model row is the best fit's own template at its redshift and coefficients including the absorption by the intergalactic medium of its template, seen through that target's resolution (zero for a target without fit). A target that is in several files has one row per file in the fiber table, next to each other in the order of the redshift table; with --allspec the model is that of one of its exposures. The exposure table has every exposure of the selected targets, the details have the same redshifts as the catalog, and the headers carry the identification of the first input (group, tile, petal, night, pixel, survey, program) and no other. This holds for any order of targets, any number of ranks or workers, and any selection.",
  ["inputs","configurations"],"every order, selection and number of targets, any parallel layout, any mixture of template types",
  "The command-line tests need installed template data and are skipped.",
  ["py/redrock/external/desi.py","py/redrock/targets.py","py/redrock/templates.py"],
  [("models gathered, sorted to the catalog order","py/redrock/external/desi.py rrdesi"),("model evaluation","py/redrock/targets.py eval_model; py/redrock/templates.py Template.eval, eval_model")],
  [("rows","target identifier per row","output files")],["files written by rrdesi"])

p("C23","Archetype fits report the archetype that fits best",
  "In archetype mode the reported fit of a candidate is the archetype (or set of nearest archetypes) of that spectral type with the lowest chi-squared, its name and its coefficients belong together, and re-evaluating them reproduces the chi-squared that is reported. The candidates are those of the templates, types without archetypes are fitted with their templates as without archetypes, and a fit is flagged as negative exactly when an archetype is subtracted. Every supported combination of options (with or without polynomials, per camera or not, prior or not, one archetype or several) completes.",
  ["inputs","configurations"],"every set of archetypes, every option combination, every number of cameras",
  "The archetype tests use one archetype file with the default options.",
  ["py/redrock/archetypes.py","py/redrock/fitz.py","py/redrock/zfind.py","py/redrock/targets.py"],
  [("best archetype by chi2","py/redrock/archetypes.py Archetype.get_best_archetype, nearest_neighbour_model"),("split and evaluation of coefficients","py/redrock/archetypes.py split_archetype_coeff, Archetype.eval")],
  [("coeff","archetype and polynomial coefficients","py/redrock/archetypes.py")],["table returned by zfind"])

p("C24","Absorption by the intergalactic medium only dims, and only blueward of the lines",
  "The transmission of each model equals the published effective optical depth of that model and is between 0 and 1 everywhere (rest wavelengths above 100 Angstrom), exactly 1 at wavelengths redward of the redshifted first line, and the no-absorption model gives 1 everywhere; an unknown model is refused. Evaluating a list of redshifts gives row by row the same as evaluating each redshift alone, and 'nothing to apply' is reported only when every value is 1. A scan applies the absorption of the template's model to every band at every redshift, whatever the order of the bands. The model of Inoue et al. with scaled optical depths, and its table over redshifts, have those optical depths.",
  ["inputs","configurations"],"every redshift list and wavelength grid, every model, scalar and array forms",
  "The tests compare a few values for fixed redshifts.",
  ["py/redrock/igm.py"],
  [("transmission per model","py/redrock/igm.py transmission_Lyman and models")],
  [("T","transmission","py/redrock/igm.py")],["return values of transmission_Lyman, Inoue14.full_IGM and Inoue14.interpolate"])

p("C25","Rebinning integrates the template exactly and refuses to extrapolate",
  "Rebinning a template gives in every output bin the exact mean of the piecewise linear template over that bin, at every redshift and for every basis vector independently, and batch evaluation equals one-by-one evaluation. Bins outside the template's wavelength range are refused with an error, never extrapolated.",
  ["inputs"],"every input and output grid (finer, coarser, irregular, partially overlapping), every redshift list",
  "The tests rebin a few fixed grids.",
  ["py/redrock/rebin.py"],
  [("trapezoidal integration over bin edges","py/redrock/rebin.py trapz_rebin, _trapz_rebin"),("batch form over redshifts","py/redrock/rebin.py rebin_template"),("bin edges from centres","py/redrock/rebin.py centers2edges")],
  [("binned","redshift x wavelength x basis","py/redrock/rebin.py")],["return value of trapz_rebin, rebin_template"])

p("C26","The scan is the weighted least-squares optimum at every redshift",
  "At every redshift the reported chi-squared is the weighted sum of squared residuals of the reported coefficients, which minimise it: over all coefficients for the unconstrained method, over non-negative coefficients for the non-negative methods. Pixels with zero weight have no influence whatever their (finite) value, exactly singular systems (a template that is zero or repeated) give the documented large value at that redshift only instead of a crash, the penalty of a galaxy is minus its summed [OII] line flux where that is negative and zero elsewhere, and an unknown method is refused.",
  ["inputs"],"every small system of templates, data and weights, every solution method, masked pixels with any finite value",
  "The tests check one noisy target per method by tolerance.",
  ["py/redrock/zscan.py"],
  [("normal equations and solver choice","py/redrock/zscan.py calc_zchi2_batch, calc_zchi2_one, solve_matrices"),("weights","py/redrock/zscan.py spectral_data")],
  [("zchi2, zcoeff","chi-squared and coefficients per redshift","py/redrock/zscan.py")],["return value of calc_zchi2_batch, calc_zchi2, solve_matrices"])

p("C27","BOSS targets keep their identity and their exposures",
  "The identifier made from plate, date and fiber gives back exactly that plate, date and fiber and is different for different inputs. The BOSS reader gives every requested fiber its own spectra and metadata, applies the mask and the requested selection, and the catalog it writes has one row per target with the fit of that target.",
  ["inputs","configurations"],"every plate, date and fiber in range, every layout of exposures and selection",
  "The identifier test checks a few numbers; the reader is not tested.",
  ["py/redrock/external/boss.py"],
  [("identifier encoding","py/redrock/external/boss.py platemjdfiber2targetid, targetid2platemjdfiber"),("reader","py/redrock/external/boss.py read_spectra"),("catalog","py/redrock/external/boss.py write_zbest")],
  [("targetid","encoded identifier","py/redrock/external/boss.py")],["return values and written catalog"])

p("C28","What the command line asks for is done, or the run is refused",
  "rrdesi and rrboss end normally only if every output asked for was written completely, with exactly the targets asked for, and nothing else was written; directories of outputs are made when needed. Requests that contradict themselves or lack what is needed (no output; identifiers together with a range; a range beyond the file; missing input, templates, archetypes or GPU; an interactive session with several processes) end with an error and leave existing files as they were. Pixels on the bright sky lines and of strongly negative flux carry no weight unless asked otherwise; the number of candidates, the number of refinement points and the redshift ranges are those given, with the documented defaults; the number of processes is limited as documented and changes nothing in the results. Under MPI a failure of one process ends the run of all, unless --no-mpi-abort is given.",
  ["inputs","configurations","faults"],"every combination of options, every process and point at which it fails",
  "The tests run no complete command.",
  ["py/redrock/external/desi.py","py/redrock/external/boss.py","py/redrock/utils.py","bin/rrdesi","bin/rrboss","bin/rrdesi_mpi","bin/rrboss_mpi"],
  [("argument checks, error handling and abort","py/redrock/external/desi.py rrdesi; py/redrock/external/boss.py rrboss"),("number of processes","py/redrock/utils.py get_mp"),("MPI start","bin/rrdesi_mpi, bin/rrboss_mpi")],
  [("args","options","py/redrock/external/desi.py rrdesi")],["exit code of the command","files written"])

p("C29","The display shows the fit selected, and the keys lead to every fit",
  "The interactive display (rrplot, PlotSpec) shows the targets that have fits in the order given. The arrow keys move between targets, stopping at the first and last, and in a circle between the fits of a target, so that every fit of every target can be reached and the selection never leaves the list. What is shown is always the selected fit: the target's own spectra without pixels that have no weight, the model of that fit (template or archetype with its polynomials), the scans of every template with their penalties, the marks of all its fits, its redshift, type and exactly its warnings, and the true redshift of that target if known. Moving between fits of a target keeps the part of the axes the user looks at. Looking changes nothing in the spectra.",
  ["inputs","schedules"],"every sequence of keys, every list of targets and fits, template and archetype fits",
  "The display is not tested at all.",
  ["py/redrock/plotspec.py","bin/rrplot"],
  [("key handling","py/redrock/plotspec.py PlotSpec._onkeypress"),("drawing","py/redrock/plotspec.py PlotSpec.plot")],
  [("itarget, znum","selected target and fit","py/redrock/plotspec.py PlotSpec")],["attributes and figure of the display"])

p("C30","Using GPUs changes nothing but the speed",
  "A run that uses GPUs, with any number of processes and devices, gives the targets, redshifts, classes, coefficients, chi-squareds, warnings and scans of the run without them (up to rounding), with and without archetypes, and every function that has a GPU variant computes, refuses and marks as unsolvable the same as without. Kernels read and write only inside of their arrays and do not depend on the order of threads, what is kept on the device never goes stale, processes without a GPU are given no targets however many there are, every target is given to exactly one process, and asking for GPUs while forbidding all of them is refused.",
  ["inputs","configurations","schedules"],"every input, number of processes and devices, order of threads",
  "The GPU tests are skipped without a GPU, and compare single functions on fixed inputs.",
  ["py/redrock/zscan.py","py/redrock/rebin.py","py/redrock/igm.py","py/redrock/archetypes.py","py/redrock/targets.py","py/redrock/templates.py","py/redrock/fitz.py","py/redrock/zfind.py","py/redrock/utils.py","py/redrock/external/desi.py"],
  [("kernels","py/redrock/zscan.py, py/redrock/rebin.py cuda_source"),("device copies","py/redrock/targets.py Spectrum.gpuwave, Target.legendre, gpu_spectral_data"),("GPU ranks and capacities","py/redrock/external/desi.py rrdesi; py/redrock/utils.py getGPUCountMPI, distribute_work")],
  [("use_gpu","whether a process uses a GPU","py/redrock/external/desi.py")],["return values with use_gpu","output files of rrdesi --gpu"])

p("C31","Templates that are installed or converted are those asked for",
  "install_redrock_templates ends successfully exactly if the version asked for is then in the directory asked for (by default that of the code, which redrock uses when RR_TEMPLATE_DIR is not set), complete and loadable; a directory that exists is refused and stays as it was, and nothing else is written, whatever RR_TEMPLATE_DIR says. rrconvertSDSStemplates gives one redrock template for each name in the SDSS file, or one with all spectra if there are no names, which load with the type, subtype, wavelengths, version and spectra of the input, and replaces no other files.",
  ["inputs","configurations","faults"],"every version, directory, environment and failure of the clone; every file of templates",
  "The scripts are not tested at all.",
  ["bin/install_redrock_templates","bin/rrconvertSDSStemplates","py/redrock/templates.py"],
  [("installation","bin/install_redrock_templates main"),("conversion","bin/rrconvertSDSStemplates convert"),("where templates are","py/redrock/templates.py get_template_dir, load_templates")],
  [("templatedir","where templates are installed","bin/install_redrock_templates main")],["exit code and files of the commands"])

p("C32","What ran before changes neither results nor inputs",
  "Within one process a scan, fit, evaluation, rebinning, reading of results or complete run gives the same result as in a process that did nothing else, whatever ran before on the same targets, templates and archetypes with whatever options, and results already returned are not changed later. No operation changes what it was given: wavelengths, flux, weights and resolution of spectra, templates, archetypes, arrays, rows and lists of options passed as arguments, and input files (coadding, and moving spectra to and from shared memory, change only how targets hold their data as documented).",
  ["histories","configurations"],"every sequence of operations in one process, with any options, on shared objects",
  "Every test makes its own objects and calls one operation once.",
  ["py/redrock/targets.py","py/redrock/templates.py","py/redrock/archetypes.py","py/redrock/igm.py","py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/fitz.py","py/redrock/results.py","py/redrock/external/desi.py"],
  [("cached polynomials","py/redrock/targets.py Target.legendre"),("cached absorption grid","py/redrock/igm.py IGM"),("cached resolution","py/redrock/targets.py Spectrum.Rcsr"),("arrays shared by scan, prior and fit","py/redrock/zfind.py zfind")],
  [("_legendre, nleg","cached polynomials and what they were made for","py/redrock/targets.py Target"),("IGM","process-wide absorption grid","py/redrock/igm.py")],["return values and inputs after each operation"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
