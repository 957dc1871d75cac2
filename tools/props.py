"""Single source of the property list (see gen.py)."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique, design, note, not_applicable=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
             observe=observe, technique=technique, design=design, note=note)
    if not_applicable:
        d["not_applicable"] = not_applicable
    PROPS.append(d)


C = "corgidrp/"

P("P01", "Processing never modifies its inputs",
  "Running any pipeline step or calibration builder leaves every input it was given - the dataset, each of its frames, every "
  "calibration product and every option object - exactly as it was: pixel, error and data-quality arrays, all headers, "
  "extensions, file names and attributes. Editing the returned product afterwards does not reach back into the inputs either.",
  ["inputs", "histories", "programs"], "every step/builder, every valid dataset, calibration and option, alone or anywhere in a chain",
  "Tests check outputs of a step on one input and throw the input away; aliasing only shows when the same input is used again.",
  [C + "data.py", C + "l1_to_l2a.py", C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "l3_to_l4.py", C + "l4_to_tda.py", C + "combine.py",
   C + "darks.py", C + "flat.py", C + "photon_counting.py", C + "bad_pixel_calibration.py"],
  [("deep copy on entry", C + "data.py Dataset.copy/Image.copy"), ("each step calls dataset.copy()", C + "l2a_to_l2b.py")],
  ["in-memory objects before/after each call"],
  "runtime state-snapshot monitor around every call (purity oracle)",
  "a monitor takes a full snapshot (array bytes, every header card, HDUs, attributes) of every argument before the call and "
  "compares after it, then vandalises the result and compares again (aliasing). Workloads: every step with random datasets, "
  "options and error tracking; 18-step chains; the calibration builders.",
  "random small frames (8-50 px); trusts the snapshot to see every attribute reachable from the arguments.")

P("P02", "Headers and history survive every processing step",
  "Every processing step appends at least one HISTORY entry describing itself after all existing entries (the trap-correction "
  "placeholder appends none), and preserves every other header card, extension and file name it does not document as changed, for "
  "every frame of the dataset. History is never lost, reordered or duplicated along a processing chain.",
  ["inputs", "histories", "programs"], "every step, any header content, any number of frames, any chain of steps",
  "Tests look for one expected history line on one frame; losses of other cards or of earlier history are not looked at.",
  [C + "data.py", C + "l1_to_l2a.py", C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "l3_to_l4.py", C + "l4_to_tda.py", C + "combine.py"],
  [("update_after_processing_step", C + "data.py"), ("header copies", C + "data.py Image.copy")],
  ["pri/ext/err/dq headers of returned frames"],
  "online header trace monitor over every step and chains",
  "each step runs on frames that carry random extra cards and prior history; the monitor requires the input history to be a "
  "prefix of the output history, at least one new entry naming the operation, and every other card unchanged except a per-step "
  "list of documented changes. Chains of up to 16 steps check prefix growth at every stage; the update call itself is driven with "
  "random header entries against a model.",
  "documented-change lists are per step; wording of entries is not judged beyond naming the calibration used.")

P("P03", "Every product records the full ancestry of files it was made from",
  "A calibration or combined product lists in its header each raw input file exactly once - the input files, and, for inputs that "
  "themselves record ancestors, those ancestors - and the recorded number of parents equals the list. Inputs that were not used "
  "(e.g. frames beyond the last complete group) are not listed.",
  ["inputs", "histories"], "every product class and builder, any mix of frames with and without ancestors of their own",
  "Tests build products from fresh mock frames that have no ancestors of their own.",
  [C + "data.py", C + "combine.py", C + "darks.py", C + "photon_counting.py", C + "bad_pixel_calibration.py"],
  [("Image._record_parent_filenames", C + "data.py"), ("DRPNFILE/FILEn cards", C + "data.py")], ["ext_hdr FILEn/DRPNFILE"],
  "provenance monitor: recorded parents vs an independently kept ancestry model",
  "frames are given random (overlapping) ancestors; each class constructor and builder is run and the FILEn cards are compared with "
  "the known ancestry set, count and numbering, also after a save/reload and for nested products.",
  "synthesized darks keep the noise map's own parents (an existing test requires it).")

P("P04", "A dataset's cube and its frames are always the same data; copies are independent",
  "At any time the combined arrays of a dataset and the arrays of its frames show identical values, and writing through one is "
  "visible through the other, after any sequence of construct, copy, slice, iterate, update and processing operations. A copy "
  "(of data or of headers, as requested) never shares what it copied with its original.",
  ["histories", "programs"], "any sequence of dataset and frame operations and any processing step output",
  "Unit tests check single copies; broken links appear only after sequences of operations.",
  [C + "data.py", C + "l2a_to_l2b.py", C + "photon_counting.py", C + "darks.py"],
  [("Dataset.__init__ re-points frames to cube views", C + "data.py"), ("Dataset.copy/__getitem__", C + "data.py")],
  ["Dataset.all_data/all_err/all_dq vs frames"],
  "shadow-model monitor over random operation histories",
  "random histories (copy, header-only copy, slice, index, in-place writes through frame or cube, add_error_term, rescale, update, "
  "steps) run on a family of related datasets with a plain numpy shadow of each; after every operation all arrays of all datasets "
  "are compared with their shadows and write-through is probed in both directions.",
  "splitting a dataset shares its frames with the parts by design (an existing test requires it) and is excluded.")

P("P05", "Saving to FITS and reading back loses nothing",
  "Saving any frame, dataset or calibration product and loading the file again gives back the same data, errors, error layers, DQ flags, "
  "extension names, extra extensions, header values, history and derived attributes, repeatedly. Files are written where and under the name asked for.",
  ["inputs", "histories"], "every product class, array dtype, error-layer configuration, header content, repeated save/load generations",
  "Tests reload one or two mock products and compare the data array.",
  [C + "data.py"], [("Image.save / Image.__init__ from file", C + "data.py")], ["FITS files on disk"],
  "differential monitor: object before save vs object and raw FITS after load",
  "every class is built with random content, saved, the raw FITS inspected with astropy, reloaded and compared attribute by "
  "attribute, then saved/reloaded again; datasets are saved with and without file lists.",
  "FITS structural cards, COMMENT and float cards beyond 13 digits are excluded; KGain drops DQ by design.")

P("P06", "A file can only be loaded as the product it is",
  "A calibration class accepts exactly the files of its own type and refuses files of any other type, and automatic loading returns the "
  "type recorded in the file (a plain image for unlabelled data). New calibration products without input files, or with data of an invalid shape "
  "for their type, are refused.",
  ["inputs"], "all (written type, reading class) pairs; labelled and unlabelled files; invalid shapes",
  "Tests cover a handful of class/file pairs.",
  [C + "data.py", C + "caldb.py"], [("DATATYPE checks in each constructor", C + "data.py"), ("autoload", C + "data.py")],
  ["constructor result or exception"],
  "exhaustive pairwise load monitor",
  "all pairs of written product and reading class are executed; autoload of every product and of unlabelled data; calibration database "
  "scan assigns types; constructors are given missing parents and wrong shapes and must refuse.",
  "all class pairs are covered in every run; contents are random.")

P("P07", "A raised data-quality flag is never lost, and each step raises exactly its own",
  "Bits already set in a frame's DQ map stay set through every step (pixels cropped away, or moved when an image is rotated or undistorted, take their flags with them), and each step "
  "adds exactly the flags its documentation names: saturation, cosmic ray, nonlinearity, calibration DQ, bad pixel, division by zero. When "
  "exposures are combined, a pixel with at least one good input is clean and a pixel without any keeps all the flags of its inputs.",
  ["inputs", "histories", "programs"], "every step, any DQ content and integer array type, any number of frames, chains of steps",
  "Tests start from all-zero DQ maps with the default dtype, so an assignment in place of an OR passes.",
  [C + "data.py", C + "l1_to_l2a.py", C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "l3_to_l4.py", C + "combine.py", C + "detector.py"],
  [("flag additions in each step", C + "l2a_to_l2b.py"), ("combine DQ", C + "combine.py combine_images"), ("nan_flags/flag_nans", C + "detector.py")],
  ["dq arrays before/after each step"],
  "bit-level flag-conservation monitor on every step and on chains",
  "frames and calibrations get random flags in every bit and array type; after each step the output map is compared with (input map OR "
  "documented additions), with bounds 'must' and 'may' where the addition is decided by another property. Chains check conservation across steps; "
  "NaN marking and re-flagging is checked at random thresholds.",
  "rotation and undistortion resample DQ and are judged in P31; exact saturation/cosmic masks are judged in P16.")

P("P08", "Error maps: total error and individual layers stay consistent",
  "Every frame's first error layer is the total error; each added error term enters it in quadrature and, only when individual errors are "
  "tracked, is kept as a named layer of its own, and scaling scales every layer. The recorded layer count and names always match the array, and errors "
  "are never negative.",
  ["inputs", "histories"], "any sequence of add/rescale operations and steps, tracking on or off, any number of layers already present",
  "Tests add one or two layers in one setting; names, counts and totals drift only over longer sequences.",
  [C + "data.py", C + "l1_to_l2a.py", C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "l4_to_tda.py"],
  [("add_error_term / rescale_error", C + "data.py Image, Dataset"), ("Layer_n / TRK_ERRS cards", C + "data.py")], ["err arrays and err_hdr"],
  "shadow-model monitor over random error-operation sequences and steps",
  "random sequences of the four error operations run against a list-of-layers model; each step that scales data or adds a term is run with 1-4 "
  "existing layers and both tracking modes and compared with the documented propagation; layer names/count are compared with the array after each operation.",
  "documented formulas of the individual steps are judged in their own properties.")

P("P09", "Data levels are climbed one rung at a time, and names follow the level",
  "A dataset can only be promoted to the next data level if every one of its frames is at the level below, otherwise the promotion is refused and nothing is "
  "relabelled. Promotion changes the level and the matching token of the file name only and records the calibrations used; no other step changes level or name. New calibration "
  "products are level CAL and are named after their last input and their kind.",
  ["inputs", "histories"], "all (promotion, frame level) pairs, mixed datasets with the odd frame anywhere, the whole ladder through files",
  "Tests promote uniform datasets; one odd frame or an unusual name is not tried.",
  [C + "l1_to_l2a.py", C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "l3_to_l4.py", C + "l4_to_tda.py", C + "data.py"],
  [("update_to_l2a/l2b/l3/l4/tda", C + "l1_to_l2a.py etc.")], ["DATALVL, filename, files on disk"],
  "state-machine trace monitor over promotions",
  "all 30 (promotion, level) pairs plus mixed datasets with the odd frame at every position, the full ladder with saves and reloads in between, "
  "calibration naming for seven product kinds, and a no-rename/no-relevel check on every other step.",
  "file names follow the documented CGI pattern; only one occurrence of the level token.")

P("P10", "A frame's result does not depend on its companions or their order",
  "For every per-frame step, the result for a frame (data, errors, DQ, headers, extensions) is the same whether it is processed alone, in any batch or "
  "in any order. Frame selection judges each frame on its own and keeps the order, and products combined from a set of frames do not depend on the order of the frames.",
  ["inputs", "histories"], "every per-frame step, any batch size, frames that differ in gain, exposure, star position or colour correction",
  "Tests process batches of identical frames, so a value taken from the first frame (or left over from the previous one) goes unnoticed.",
  [C + "l1_to_l2a.py", C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "l3_to_l4.py", C + "l4_to_tda.py", C + "combine.py", C + "darks.py"],
  [("per-frame loops", C + "l2b_to_l3.py, l3_to_l4.py, l4_to_tda.py")], ["frames returned by each step"],
  "metamorphic differential monitor: alone vs batch vs permuted batch",
  "each step is executed three ways on the same heterogeneous frames and the results compared bit for bit, headers included; selection and five combining "
  "operations are executed on permutations.",
  "combined headers (documented to come from the first frame) are not part of order independence.")

P("P11", "The calibration database lists exactly what was registered",
  "After any sequence of registering, re-registering, removing, scanning directories and reopening, through any handles, the database on disk "
  "holds exactly one row for each registered calibration file with that file's current properties (kind, time, exposure, gain, sizes, version, content hash). Removing an unknown "
  "entry is refused; in-memory changes reach the disk only when saved; the default calibrations are present after start-up.",
  ["histories", "inputs"], "any history of operations through several handles, any product class and header values, directory trees",
  "Tests register a handful of files through one handle.",
  [C + "caldb.py", C + "data.py"], [("CalDB.create_entry/remove_entry/scan_dir_for_new_entries/load/save", C + "caldb.py"), ("Image.get_hash", C + "data.py")],
  ["CSV file on disk after every operation"],
  "sequential-specification monitor over random operation histories",
  "the CSV on disk is parsed independently after each operation and compared with a dict model; histories mix handles, relative paths, changed files, scans with and "
  "without subfolders; hashes are recomputed in another process and checked to notice a one-value change.",
  "handles refresh before a change, as the API does by default; truly concurrent writers are outside the documented use.")

P("P12", "The database hands out the right calibration for a frame",
  "The calibration returned for a frame is of exactly the requested kind and is the one taken closest in time to the frame; for darks only those with the frame's exposure time are "
  "considered, and with no frame given the most recently created one is returned. If nothing is suitable an error is raised, never a wrong product.",
  ["inputs", "histories"], "any set of registered calibrations of all kinds, any frame time and exposure, after any history of changes",
  "Tests choose among two or three calibrations of one kind.",
  [C + "caldb.py"], [("CalDB.get_calib", C + "caldb.py")], ["object returned by get_calib"],
  "brute-force reference monitor on every query",
  "random registries of all 15 product kinds are queried with random frames and compared with an exhaustive choice over the model; the returned object is compared with its "
  "file; queries follow changes made through another handle.",
  "ties within 1e-9 days accept any of the tied products.")

P("P13", "The right recipe is generated for a set of files, correctly filled in",
  "For every data level, visit type, photon-counting flag, spread of exposure settings and loop flag the documented recipe(s) are chosen, "
  "independent of frame order, and unknown levels are refused. The generated recipe is the template with only these changes: input files in order, output "
  "folder, and each automatic calibration replaced by the best one in the database (empty if optional, step marked skipped if skipping is enabled, otherwise "
  "an error), or left open when calibrations are to be identified at run time.",
  ["inputs", "programs"], "all 200+ observation kinds; every shipped template and edited ones; any database content and pipeline settings",
  "Tests cover a few observation kinds and one missing calibration.",
  [C + "walker.py", C + "__init__.py", C + "recipe_templates"],
  [("guess_template / autogen_recipe / _fill_in_calib_files", C + "walker.py"), ("create_config_dir / update_pipeline_settings", C + "__init__.py")],
  ["recipe dictionaries; pipeline settings"],
  "reference-model monitor over generated recipes (exhaustive over observation kinds)",
  "the choice of recipe is enumerated over all observation kinds against the documented table; filling is compared, key by key and in order, with a model that "
  "uses a brute-force choice of calibrations; settings files (fresh, legacy, edited, partial) are compared with what the pipeline reports.",
  "shipped templates are read from the repository: a different step list inside a template is not by itself judged here.")

P("P14", "Running a recipe is doing exactly its steps, in order",
  "A recipe run performs exactly the recipe's steps in order with the recipe's calibrations (in the order given), options and pipeline settings, skipping those marked; the "
  "files it writes are those of performing the same steps by hand. The recipe is recorded in every product and on disk, calibrations it makes are registered in the "
  "database, running the recorded recipe again gives the same products, and a failing step stops the run with an error.",
  ["programs", "histories", "inputs"], "any valid recipe from raw files up to L4, any calibration mode, sequences of recipes sharing a database",
  "The end-to-end tests need data that is not shipped; unit tests run one short recipe.",
  [C + "walker.py", C + "ops.py", C + "recipe_templates"],
  [("run_recipe / save_data / walk_corgidrp", C + "walker.py"), ("step_3_process_data", C + "ops.py")], ["output directory, headers, database"],
  "differential execution monitor: pipeline run vs hand-executed steps",
  "random recipes (5-20 steps, options, saves with suffixes, skips, just-in-time or early calibrations) run on raw files of a small detector; all written files are "
  "compared array by array and card by card with a hand execution; recorded recipes are re-run; sessions of several recipes share a database; every shipped template "
  "is executed with recording stand-ins for the steps; failing steps are injected.",
  "the physics of the shipped templates at full detector size is judged step by step in the other properties.")

P("P15", "The bias is removed row by row from the right detector area",
  "For every kind of frame and either output area, each returned pixel equals the raw pixel minus the median of the valid prescan pixels of its own row (plus the offset, when one is given), "
  "taken at its own place on the detector. The median's statistical error and the offset's error are recorded as an error term, the bias is kept with the frame, "
  "data, errors and flags are cut to the same area, and inconsistent input (wrong frame size or kind, a bias offset not a number) is refused.",
  ["inputs"], "all frame kinds (science, both engineering kinds, calibration), full or imaging area, bias offset from a noise map / NaN / none, any pixel values and flags, any detector geometry",
  "Tests use one science and one engineering frame; whole frame kinds were never executed (two defects found).",
  [C + "l1_to_l2a.py", C + "detector.py"], [("prescan_biassub", C + "l1_to_l2a.py"), ("slice_section / imaging_area_geom / detector_areas", C + "detector.py")],
  ["frames returned by the bias subtraction; detector area slices"],
  "reference-model monitor on random geometries and the flight geometry",
  "an independent row-by-row computation on random small geometries (all sections consistent) and the four flight geometries is compared pixel by pixel with the step's data, "
  "errors, bias extension and flags; the flight geometry is checked for mutual consistency of its areas.",
  "the flight numbers themselves are taken from the repository's table.")

P("P16", "Saturated pixels and cosmic-ray tails are flagged, and only they",
  "A pixel is flagged saturated (32) exactly when it reaches or exceeds the saturation limit for its frame's EM gain. A cosmic ray (128) is flagged exactly where a plateau of saturated-like "
  "values is found in a row, from just before the plateau along the documented tail, within the area requested. Existing flags stay; limits given, read from headers or "
  "taken from the detector model are all honoured, per frame.",
  ["inputs"], "any frames, gains (commanded, applied or measured), limits (scalar, per frame, defaulted), thresholds, windows, tails and detector areas",
  "Tests place a few hand-made plateaus; the positions near edges, wraps, other gains and per-frame limits are not enumerated.",
  [C + "l1_to_l2a.py", C + "detector.py"], [("detect_cosmic_rays", C + "l1_to_l2a.py"), ("flag_cosmics / find_plateaus / calc_sat_fwc", C + "detector.py")],
  ["flag arrays and headers after the step"],
  "brute-force reference monitor over generated plateau patterns",
  "rows with planted plateaus of all lengths and positions (edges, adjacent, overlapping, at the threshold) are masked by an independent scalar implementation of the documented rule; "
  "flags of the step and of the underlying functions are compared, with saturation limits recomputed per frame.",
  "two documented ambiguities codified by existing tests (one border row/column and the wrap of a tail into the next row in full-frame mode) accept both readings.")

P("P17", "Each pixel gets the nonlinearity factor of its counts and gain",
  "Every pixel is multiplied by the calibration's relative gain, interpolated linearly first in EM gain and then in counts, and held constant beyond the edges of the table. "
  "The frame's own gain (measured, else applied, else commanded) is used, pixels above the given threshold are flagged 64, malformed calibrations or frames without a gain are refused, and "
  "without a calibration nothing is corrected.",
  ["inputs"], "any valid table (sizes, spacing), counts and gains inside, on nodes and outside; malformed tables",
  "Tests use one table and one gain.",
  [C + "l1_to_l2a.py", C + "detector.py", C + "data.py"], [("correct_nonlinearity", C + "l1_to_l2a.py"), ("get_relgains", C + "detector.py"), ("NonLinearityCalibration", C + "data.py")],
  ["data, flags and errors after the step"],
  "scalar reference-model monitor plus metamorphic relations",
  "each pixel is recomputed by a scalar piecewise-linear interpolator; table refinement and identity tables must not change results; seven kinds of malformed input must be refused.",
  "")

P("P18", "Noise maps fit the darks, and subtracted darks match the frame",
  "Each pixel of the three noise maps (fixed pattern, clock-induced charge, dark current) is the least-squares fit to the unmasked means of the dark stacks, with the "
  "matching fit errors, bias offset and flags for pixels with too few usable stacks; unfit campaigns are refused. A synthesized dark is F/g + tD + C with its errors and combined flags, at the "
  "frame's own gain and time and detector area. Subtracting a dark removes exactly it, adds its error and flags, and is refused if its settings differ from the frames'.",
  ["inputs"], "any campaign of dark stacks (gains, times, orders, masks, telemetry rows), any frame gain and time, full or image frames, synthesized or traditional darks",
  "Tests check mean values of one simulated campaign within loose tolerances; masks in single stacks, orders and other gain sources are not sampled (two defects found).",
  [C + "darks.py", C + "l2a_to_l2b.py", C + "data.py"], [("calibrate_darks_lsq / build_synthesized_dark", C + "darks.py"), ("dark_subtraction", C + "l2a_to_l2b.py")],
  ["maps, errors, flags and headers; subtracted frames; saved darks"],
  "reference-model monitor: independent per-pixel fits",
  "random campaigns on random small detectors are fitted pixel by pixel with an independent solver; frames made exactly from known maps must give them back; frame order must not "
  "matter; synthesized darks and subtractions are recomputed; nine kinds of unfit campaigns, seven unfit maps and five unsuitable darks must be refused.",
  "the read-noise estimate is not a product (only a warning) and is not judged; the C error of pixels with an empty stack is not judged.")

P("P19", "A master dark is the masked mean of its frames",
  "Each pixel of a master dark built from a stack is the mean of the frames in which it is not flagged, with an error combining the frames' own errors and their scatter, "
  "flag 1 where no frame is usable and 256 where most are not; telemetry rows do not contribute. The order of frames is irrelevant, the area asked for is returned, settings "
  "are recorded, and stacks of mixed exposure, gain or k-gain are refused.",
  ["inputs"], "any number of frames, flags, area, telemetry rows",
  "Tests use one stack with a few flagged pixels.",
  [C + "darks.py"], [("build_trad_dark / mean_combine", C + "darks.py")], ["the dark, its errors, flags and headers; mean_combine results"],
  "reference-model monitor", "random stacks with per-frame flags (including never, half and always flagged pixels) are averaged by an independent model and compared pixel by pixel; invalid stacks must be refused.",
  "for exactly half of the frames flagged both flag values are accepted (documentation and code differ); the error of a pixel without any usable frame is not judged.")

P("P20", "Counts become photoelectrons per second with consistent errors and units",
  "Each conversion step (k-gain, EM gain, flat, exposure time) multiplies or divides every pixel and every error layer by its factor, each frame by its own gain (measured, else applied, else "
  "commanded) and exposure. Uncertainties of the k-gain, the flat and the photon noise (doubled in variance when the EM gain exceeds 1) are added in quadrature, "
  "and units (of data and errors) and calibration values are recorded. Pixels where the flat is zero are flagged (4); other flags are unchanged.",
  ["inputs"], "any data, gains from any header, exposure times, error layers, individual error tracking on or off, zeros in the flat",
  "Tests use one or two identical frames and check a mean value.",
  [C + "l2a_to_l2b.py", C + "l2b_to_l3.py", C + "data.py"],
  [("add_photon_noise / convert_to_electrons / em_gain_division / flat_division", C + "l2a_to_l2b.py"), ("divide_by_exptime", C + "l2b_to_l3.py")],
  ["data, error layers, flags and headers after each step and after the chain"],
  "reference-model monitor plus linearity relations", "every pixel and error layer of random heterogeneous datasets is recomputed after each step and after the whole chain; doubling data and errors must double the result.",
  "pixels with a negative signal (undefined photon noise) are not judged.")

P("P21", "Bad pixels are exactly those over or under the thresholds, and all are replaced",
  "The bad-pixel map flags hot (8) exactly the pixels above the dark's mean plus the given number of standard deviations, and dead (4) exactly those below the given fraction of the local mean of the flat "
  "in the documented box, clipped at the edges. Correcting bad pixels turns every flagged or mapped pixel into NaN, keeps its flags and adds 2, and touches nothing else.",
  ["inputs"], "any dark, flat, thresholds, box width (odd, even, larger than the frame), flag patterns and flag types",
  "Tests plant a few pixels far from any threshold in a large flat frame.",
  [C + "bad_pixel_calibration.py", C + "l2a_to_l2b.py"], [("create_bad_pixel_map / detect_*", C + "bad_pixel_calibration.py"), ("correct_bad_pixels", C + "l2a_to_l2b.py")],
  ["the map; data and flags after replacement"],
  "scalar reference-model monitor plus metamorphic relations", "every pixel of small random frames, many at or near the thresholds, is decided by a scalar implementation; symmetry, scaling and monotonicity relations are checked too.",
  "pixels within rounding of a threshold are not judged; noise maps given instead of a dark use the flight geometry and are covered by the synthesized-dark property.")

P("P22", "Combined sub-exposures are the mean or median of the good values of each group",
  "Consecutive groups of the given size are combined in order: each pixel is the mean or median of its unflagged values (times the group size when scaling), with the propagated error of as many "
  "values as were used, in every error layer. A pixel keeps its flags only if no frame has a good value; number of frames, parents, the first frame's header and the last file name are recorded; "
  "sizes that do not divide the dataset and unknown methods are refused.",
  ["inputs"], "any number of frames, group size, method, scaling, flags, error layers",
  "Tests combine a few frames with at most two flagged pixels.",
  [C + "combine.py"], [("combine_subexposures / combine_images", C + "combine.py")], ["combined frames: data, errors, flags, headers"],
  "reference-model monitor", "random datasets with random flag patterns (never, sometimes, always flagged) are combined pixel by pixel by an independent model; shift, order and scaling relations are checked.",
  "")

P("P23", "Exactly the frames violating a selection criterion are rejected",
  "A frame is rejected exactly if it violates a criterion in use: fraction of pixels with disallowed flags, overexposure, or jitter or pointing bias beyond the limit (equality is accepted). "
  "Rejected frames are dropped, or kept and marked, as asked; the criteria are recorded in each frame and the names and reasons of the rejected frames in the history; if none is left "
  "an error is raised. Selected frames and the input are otherwise unchanged.",
  ["inputs", "histories"], "any frames, criteria, thresholds (also met exactly), discard or mark, successive selections",
  "Tests use one bad frame per criterion.",
  [C + "l2a_to_l2b.py"], [("frame_select", C + "l2a_to_l2b.py")], ["selected frames, headers and history"],
  "reference-model monitor", "the decision on every frame is recomputed from flags and headers, including values exactly at the limits; histories are parsed; selecting in several steps must agree with selecting at once.",
  "a negative pointing bias of large size is accepted by the code (no absolute value) and not judged.")

P("P24", "Splitting a dataset partitions its frames by their keyword values",
  "Splitting by any keywords gives groups in which two frames are together exactly if all their values are equal: every frame is in exactly one group, in its original order, with its data, "
  "and each group comes with its values. Splitting by no keyword or by one that is absent is refused.",
  ["inputs"], "any keywords of either header, values of any kind FITS allows (numbers, text, logical, undefined), any number of frames and groups",
  "Tests split four frames by integers (two defects found with other kinds of values).",
  [C + "data.py"], [("Dataset.split_dataset", C + "data.py")], ["groups and labels"],
  "reference-model monitor", "random keyword tables are split and the result compared with a dictionary keyed by the header values.",
  "numbers equal in value (2 and 2.0) count as equal.")

P("P26", "Desmearing restores the scene smeared during readout",
  "For every frame and exposure time, a scene smeared by the row-by-row readout is restored exactly by the desmearing step with the detector's row time; the correction is linear, acts "
  "column by column and only from earlier to later rows, and is recorded. Errors and flags are unchanged.",
  ["inputs"], "any scene, frame size, exposure times differing between frames, row read time",
  "The test checks one uniform scene.",
  [C + "l2a_to_l2b.py", C + "data.py"], [("desmear", C + "l2a_to_l2b.py"), ("DetectorParams", C + "data.py")], ["desmeared frames"],
  "inverse-model monitor plus relations", "scenes are smeared by an independent forward model and must come back; the closed form, linearity, causality and dependence on the ratio only are checked.",
  "")

P("P28", "ND filter optical densities are measured, flagged and looked up correctly",
  "The optical density of each frame through the filter is minus the log of the star's measured over its expected brightness (band flux or irradiance, as chosen), recorded with the star's centroid; the calibration factor is the one given, "
  "or the mean over the frames without the filter. A high spread for any target warns and is flagged; inconsistent filter, band or mask positions and unknown stars or methods are refused, repeatability offsets are not. "
  "Lookups equal the density at measured places, are exact for a density linear in position, stay within the measured range, and follow the mask when it is moved; inputs are not changed.",
  ["inputs"], "any targets, densities, positions, backgrounds, photometry methods, factors and frame orders",
  "The tests need the network (CALSPEC) and use one target set in one order; five defects were found.",
  [C + "nd_filter_calibration.py", C + "data.py"], [("create_nd_filter_cal / interpolate_od / calculate_od_at_new_location", C + "nd_filter_calibration.py"), ("NDFilterSweetSpotDataset", C + "data.py")],
  ["ND product (rows, headers, flag), warnings, looked-up densities"],
  "reference-model monitor on synthetic stars of known brightness", "stars integrated over pixels at the brightness that a chosen density implies (spectra integrated independently), so that the product must return the density; lookups against linear fields.",
  "the CALSPEC download is replaced by a deterministic local stand-in spectrum per star.")

P("P29", "Photometry, flux calibration and magnitudes agree with the light in the image",
  "Aperture photometry is the (background-subtracted) sum of unflagged pixels in the aperture over the encircled-energy fraction with the matching error; both photometry methods return the flux of a known star, located in the image, near a guess, "
  "or on the sky. Band fluxes, irradiances, wavelengths, colour corrections and magnitudes follow from the filter and spectrum tables; the calibration factor with its error, unit and background closes on the standard star: "
  "images, fluxes, magnitudes and zero points derived with it return the star's own; unknown stars, bands and methods are refused.",
  ["inputs"], "any image, flags, aperture, method, band, star, spectrum, factor and colour correction",
  "The tests use one mock star with fixed parameters and need the network; three defects were found.",
  [C + "fluxcal.py", C + "l4_to_tda.py", C + "data.py"], [("aper_phot / phot_by_gauss2d_fit / calibrate_fluxcal_*", C + "fluxcal.py"), ("determine_flux / convert_to_flux / determine_app_mag / determine_color_cor / calculate_zero_point", C + "l4_to_tda.py")],
  ["photometry results, calibration products, headers, converted images"],
  "reference-model monitor plus closure relations", "pixel weights, centroids and band integrals are recomputed independently; stars integrated over pixels have a known flux; results must scale with the image.",
  "integration rules may differ by 1e-3; the sigma-clipped background is compared with the median within a quarter of the scatter.")

P("P30", "Sources are found, and companions measured, where they are and as bright",
  "Every isolated source well above the threshold is reported within a pixel or so of its place with its signal-to-noise ratio, nothing is reported elsewhere or below the threshold, image data stay as they are, and scaling or rotating the image changes nothing else; "
  "removing a scaled PSF removes a source of that shape and touches only its box. Companions listed in the header or given by separation and angle are each measured once, at their places, with their counts, their flux ratio to the host star "
  "after the requested throughput correction (core and algorithm throughput, filter transmission), and the magnitude that follows; unusable requests are refused.",
  ["inputs"], "any image with separated sources, mask, PSF box, noise map, threshold; any companions, throughput map, host star, KL mode and photometry method",
  "The tests use one image each, and one needs a data file that is not there; three defects were found.",
  [C + "l4_to_tda.py", C + "find_source.py", C + "measure_companions.py"], [("find_source / make_snmap / psf_scalesub", C + "l4_to_tda.py"), ("measure_companions and its helpers", C + "measure_companions.py")],
  ["reported sources, companion tables, inputs before and after"],
  "injection-recovery monitor plus metamorphic relations", "sources with known place and brightness are injected; detections and measurements are compared with them, and detections under scaling, rotation and a threshold at the top of the map.",
  "places may be off by 1.5 pixels; ratios are compared within 3 %, counts within 6-12 % (pixel sampling of the PSF).")

P("P31", "Cropping, rotating, undistorting and the WCS describe one and the same sky",
  "The sky coordinates written for a frame put its reference pixel at the (offset-corrected) pointing and make steps towards north and east in the image, at the calibrated angle plus roll, lead north and east on the sky by the plate scale. "
  "Rotating north up moves data, errors, flags, star location and sky coordinates together by the same angle about the requested centre, and undistorting moves data, errors and flags by the calibrated displacement, each frame by its own. "
  "Cropping takes exactly the requested box around the star or the given place from data, all error layers and flags, keeps star, detector and sky coordinates true, does the same in two steps as in one, and refuses odd or overhanging boxes.",
  ["inputs"], "any frames of any size, pointing, roll, north angle, rotation centre, star place, box, error layers, cube depth, distortion polynomial",
  "The tests rotate one square field, crop a few boxes and compare a mean after undistortion; four defects were found (flags a pixel off after rotation, star and reference pixel left behind, flags not undistorted).",
  [C + "l2b_to_l3.py", C + "l3_to_l4.py"], [("create_wcs", C + "l2b_to_l3.py"), ("crop / northup / distortion_correction", C + "l3_to_l4.py")],
  ["data, errors, flags and headers of the frames before and after"],
  "reference-model monitor plus metamorphic relations", "smooth analytic scenes, flag patterns and pixel places are followed through each operation by independent geometry, and through the WCS headers on the sky.",
  "interpolated values are compared within 1-2 % of a source, flags where the nearest pixel is beyond doubt; plate scales equal in both axes.")

P("P32", "Gain, read noise and linearity calibrations recover the detector",
  "From bias-subtracted frames of any lamp, exposure plan and order of the sets, the K-gain calibration returns the detector's electrons per count, its read noise and their errors, and the transfer curve they come from; the result scales with the counts, and not with the EM gain. "
  "The linearity calibration returns one column per measured EM gain and one row per 20 counts, exactly one at the reference count, which turns the signal of every response curve into a straight line in exposure time, and is exactly one everywhere for a linear detector, "
  "even when the lamp drifts linearly in time; background, exposure unit, mean-frame brightness and order of the sets do not matter, the input frames stay as they are, and incomplete or inconsistent sets and parameters are refused.",
  ["inputs"], "any gain, read noise, response curve, EM gains, lamp drift and brightness, exposure times, order and number of frames, limits",
  "The tests use one simulated data set and check the K-gain to half a unit and the table to 4 %; four defects were found.",
  [C + "calibrate_kgain.py", C + "calibrate_nonlin.py"], [("calibrate_kgain / kgain_dataset_2_list", C + "calibrate_kgain.py"), ("calibrate_nonlin / nonlin_dataset_2_stack", C + "calibrate_nonlin.py")],
  ["KGain and NonLinearityCalibration products"],
  "recovery monitor over simulated detectors, with exact metamorphic relations", "photon and read noise, response curves per gain and lamp drifts are simulated; the products are compared with the truth (exactly where the simulation has no noise), and transformed inputs with the first result.",
  "K-gain within three of its own errors (and 12 %), read noise within 4 %; linearity judged up to the intercept of the straight line, residual below 0.08 % plus 1.5 % of the nonlinearity plus a tenth of the drift; one flight-size run with default regions.")

P("P33", "Time stamps, flag bits and flag names convert exactly",
  "A file's time stamp is its time in UTC rounded to the nearest tenth of a second with all carries, in the documented 16-character form; unreadable times are refused. Unpacking flags gives their 64 bits, most "
  "significant first, and packing restores the values. The four flag tables (name, bit, value) agree with each other and with the documented flags.",
  ["inputs"], "any ISO time with or without offset and fraction; any 64-bit values and shapes; all flags",
  "Tests check a handful of strings and values.",
  [C + "data.py"], [("format_ftimeutc / packbits_64uint / unpackbits_64uint / get_*_map", C + "data.py")], ["return values"],
  "exact-arithmetic reference monitor", "times are generated around every carry and tie and rounded with exact fractions; bits are compared one by one.",
  "at exact ties both neighbours are accepted.")

P("P34", "Flat fields are the sensitivity pattern of the detector",
  "A lamp flat is the mean of its frames, missing values left out, with the standard error of that mean. A flat made from dithered images of a planet, with any level of sky and any brightness, equals the sensitivity pattern wherever the planet was seen within the "
  "field of view, has no value where it was not, is one outside, and is padded to the requested size, by default that of the whole detector; "
  "dividing evenly lit frames by it makes them uniform, and the input frames stay as they are.",
  ["inputs"], "any frames, missing values, pattern, brightness, sky, dither positions, number of frames, planet, band, field of view, padding",
  "The tests use one set of mock images per planet and check only that the mean of the flat is near one; two defects were found.",
  [C + "flat.py"], [("create_flatfield / create_onsky_flatfield / flatfield_residuals / combine_flatfield_rasters", C + "flat.py")],
  ["flat fields and the frames divided by them"],
  "recovery monitor with a known pattern", "extended sources times a known random pattern are placed at known positions; value, coverage, contrast and scale of the flat are compared with the pattern.",
  "planets much larger than the box; agreement within 1.5 % and contrast within 3 %; the box half-width is the planet radius plus five pixels (the default relation).")

P("P35", "Scale, orientation, pointing and distortion are recovered from star fields",
  "From images of a known star field, at any north angle and with the telescope pointing slightly off its target, every source is found at its place and matched to its own star, whatever the order of the sources, and the "
  "astrometric calibration gives the plate scale, the north angle over the full circle, the sky position of the image centre and the mean offset of target from centre in sky degrees. Given matches are used, frames are averaged in consecutive "
  "groups when asked, a requested distortion maps every place of the detector to its place on the sky, otherwise it is the identity. "
  "Centroids, star offsets, position angles, separations and circular masks follow their definitions for images of any shape.",
  ["inputs"], "any star field, north angle, scale, declination, pointing error, image shape, order and brightness of stars, number of frames, distortion",
  "The tests use one field at north angle 20 degrees, without pointing error, on square images; ten defects were found.",
  [C + "astrom.py"], [("boresight_calibration / match_sources / find_source_locations / compute_platescale_and_northangle / compute_boresight / compute_distortion", C + "astrom.py"),
   ("centroid / measure_offset / seppa2dxdy / angle_between / create_circular_mask", C + "astrom.py")],
  ["astrometric calibration, matches, source positions"],
  "recovery monitor with known truth", "stars are painted through a tangent-plane projection with known scale, rotation, pointing and polynomial distortion; the measured calibration must send pixels to the true sky positions; coordinates written with it must follow the stars.",
  "fields with a target star near the centre and an unambiguous brightest triangle, away from right ascension zero; even image sizes; the reference pixel in written coordinates may count from zero or one (the tests fix zero).")

P("P36", "Input validators accept exactly what they document",
  "Every validator returns its argument if it is of the documented kind (real, positive, nonnegative or integer scalar, real or 1-, 2-, 3-D or square array, text, logical, dictionary) "
  "and otherwise raises the caller's exception, naming the variable; misuse of a validator itself is reported as such.",
  ["inputs"], "every validator on every class of Python and numpy object", "Tests use a few wrong values per validator.",
  [C + "check.py"], [("all validators", C + "check.py")], ["return value or exception"],
  "exhaustive table-driven monitor", "a pool of ~190 objects is run through all 14 validators with several exception types, each verdict decided by an independent table.",
  "Python bools given to numeric validators, NaN, and text arrays given to array validators are not judged.")

P("P25", "Photon counting gives the mean rate corrected for threshold and coincidence",
  "For each consecutive bin of equally configured frames (a remainder is ignored), a pixel's value is the rate solving the detection equation of Poisson arrivals and electron multiplication for its "
  "unflagged frames strictly above the threshold, less the dark of that bin, never below zero, with an error covering the input errors and the counting scatter. Pixels without an unflagged frame are "
  "flagged; threshold, number of frames, parents and history are recorded; darks come as one cube. Mixed configurations, wrong kinds of frames or darks, unusable thresholds, too "
  "bright frames and negative rates are refused, the last two only reported when asked.",
  ["inputs"], "any number of frames and bins, flags, errors, thresholds, gains, iterations, darks",
  "Tests check the mean over one simulated stack; no pixel is checked individually (two defects found).",
  [C + "photon_counting.py"], [("get_pc_mean / corr_photon_count / lam_newton_fit / varL23", C + "photon_counting.py")], ["photon-counted frames and darks, exceptions, warnings"],
  "scalar reference-model monitor plus recovery of simulated rates", "every pixel of small stacks (many values at or near the threshold) is recomputed from the Poisson-gamma detection probability; converged solutions must satisfy the "
  "equation; simulated Poisson-gamma frames must give back the rate with the stated scatter.",
  "pixels for which the iteration diverges are not judged.")

P("P27", "Core throughput and its PSFs are measured and interpolated for the right place",
  "Each off-axis PSF is recorded with its centroid, its light above half maximum over the star's light, its cut-out and the mask positions. The mask centre follows from the mask encoder differences. "
  "Interpolated throughput equals the measured value at a measured place, is exact for a throughput linear in radius (or its logarithm) and azimuth, stays within the measured range, and is returned, with its position, exactly for targets inside "
  "the measured region; maps hold the same values and are saved when asked; the nearest measured PSF is returned; unusable targets and datasets are refused.",
  ["inputs"], "any layout of measurements, targets (also exactly at measured places), encoder positions and matrices, bands",
  "Tests use one regular layout in one quadrant, and repeat the code's formula as oracle (four defects found).",
  [C + "corethroughput.py", C + "data.py"], [("generate_ct_cal / CreateCTMap / get_1d_ct / di_over_pil_transmission", C + "corethroughput.py"), ("CoreThroughputCalibration", C + "data.py")],
  ["calibration product, interpolated values, maps, PSFs"],
  "reference-model monitor plus exactness and containment relations", "random layouts, matrices and targets; linear fields have a closed form, general ones are interpolated independently in radius and azimuth; membership of the measured region is decided by the convex hull.",
  "two deviations of the PSF choice that the existing tests repeat are listed as known findings; a regular layout's triangulation is not unique, there only the bounds of the cell are checked. "
  "The half-pixel offset of the radial curve is taken as the tests have it.")

P("P39", "The star is found from its satellite spots",
  "For frames in any order, any mode, spot rotation, brightness, background and image shape, the star position recorded in every kept frame is the centre of the spots, wherever near the guess (or, without one, near the image centre) it is; "
  "one outlying frame among three or more does not move it. Satellite-spot frames are dropped unless asked to be kept; pixels stay untouched, history is recorded, and replaced search parameters apply to that call only. "
  "Unknown parameters, mixed modes and invalid frame flags are refused; apertures, optima and spot separations follow their definitions.",
  ["inputs"], "any star position near the guess, rotation, mode, frame order, parameters, image shape",
  "Tests use one NFOV scene without rotation; three defects were found.",
  [C + "star_center.py", C + "l3_to_l4.py"], [("find_star", C + "l3_to_l4.py"), ("star_center_from_satellite_spots / calc_star_location_from_spots / calc_spot_separation / circle / find_optimum_1d / find_optimum_2d / update_parameters", C + "star_center.py")],
  ["recorded star positions, frames kept, module defaults"],
  "recovery monitor with known truth", "spots are painted around a known star at sub-pixel positions; the recorded position must agree within 0.1 pixel; apertures are compared with a fine grid, optima with exact parabolas and paraboloids.",
  "search with coarser sub-pixels than the default in most cases, to save time; default parameters are run for each mode.")

P("P38", "Pupil-imaging campaigns are sorted into exactly the sets taken for them",
  "For frames in any order and blocks in any order, the mean-frame set is the longest run of consecutive frames among the unity-gain frames of the most common exposure time; the K-gain set is the longest unbroken series of equally many "
  "frames at increasing exposure times whose last one repeats an earlier one; the non-linearity set is the longest such series of single frames of each other gain (returned with the others only when asked). "
  "Frames keep pixels and headers, are labelled with their set and recorded in the history, and the input stays as it was; unknown kinds of calibration are refused.",
  ["inputs", "history"], "any campaign: order of blocks and frames, frame numbers, gaps, similar but incomplete or shorter series",
  "Tests use one campaign in one block order; a second series or another block order crashed or gave a wrong set.",
  [C + "sorting.py"], [("sort_pupilimg_frames / extract_frame_id", C + "sorting.py")], ["sets of frames by label"],
  "ground-truth monitor over generated campaigns", "campaigns are generated block by block with up to eight kinds of decoys; the sets returned must be exactly the blocks taken for them.",
  "the exposure time of the mean frame does not occur in the K-gain series; two series of one gain start with a shorter exposure than the previous one ends.")

P("P37", "PSF subtraction removes the star, keeps companions, measures its throughput",
  "For science and reference frames in any order, with the star anywhere in each frame, each number of modes gives one image: every pixel is the science frame minus its projection on that many principal components of the references allowed by "
  "the algorithm (given, or following from rolls and references), derotated about the star and averaged; pixels without a good value are NaN and flagged, companions and their sky coordinates stay together. "
  "When asked, the throughput of injected PSFs is measured for the separations of the core throughput and attached with it. "
  "History, star position and parameters are recorded; unusable algorithms, missing science frames or calibrations and mixed settings are refused.",
  ["inputs"], "any number of frames, order, rolls, star positions, flags, image shapes, modes, annuli, sources of references, core-throughput layouts",
  "Tests use two fixed scenes of one size with the star in the centre and compare with loose tolerances; five defects were found.",
  [C + "l3_to_l4.py", C + "klip_fm.py", C + "corethroughput.py"], [("do_psf_subtraction", C + "l3_to_l4.py"), ("meas_klip_thrupt / inject_psf / measure_noise / get_closest_psf", C + "klip_fm.py"), ("get_1d_ct", C + "corethroughput.py")],
  ["subtracted images, flags, coordinates, throughput extensions"],
  "reference-model monitor (independent principal components) plus recovery of painted companions", "for quarter-turn rolls and whole-pixel stars every subtracted pixel is recomputed from a singular-value decomposition; companions painted at known sky offsets "
  "must appear, at their height and sky position, in the product; throughputs and widths must match those injected.",
  "one subsection per annulus; interpolated rolls are judged by the place and height of companions; duplicated history entries are not judged.")

P("P40", "Trap-pumped frames give back the traps that are there",
  "For frames in any order, schemes of any number of frames, repeated phase times and any illumination, trap-pumping analysis finds every sub-electrode trap that pumps and no other: its pixel and electrode, its energy level and capture "
  "cross-section from the release times at all temperatures, and its release time at the temperature asked for, with densities normalised by the imaging area. Dipoles are told apart by which neighbour is brighter, fits return the "
  "capture and release times and functions, illumination is removed by bins, and a trap table is read back as written; unusable schemes, bounds, options and lengths are refused.",
  ["inputs"], "any trap positions, energies, cross-sections, schemes, temperatures, phase times, number and order of frames, illumination, binning",
  "The test of the analysis does not even run here; it uses one simulated campaign with equally many frames per scheme (three defects were found).",
  [C + "pump_trap_calibration.py", C + "data.py"], [("tpump_analysis / trap_id / trap_fit / trap_fit_const / fit_cs / illumination_correction / create_TrapCal / rebuild_dict", C + "pump_trap_calibration.py"), ("TrapCalibration", C + "data.py")],
  ["trap calibration, dipoles, fit results"],
  "recovery monitor over simulated campaigns with known traps", "frames are painted with dipoles of known traps from the pumping probability of each scheme; the calibration must name exactly these traps with energies within 12 meV; dipoles are recounted pixel by pixel, "
  "fits must give back the times behind exact or noisy amplitudes within their errors.",
  "exponential capture is judged for short release times only; single-pair fits of two traps at one place are judged unless the fit ends in a side minimum; campaigns hold one trap per place.")

P("P41", "The flux-ratio noise curve is the noise over the star, corrected for throughput",
  "For every frame and number of modes, the flux-ratio noise at a separation is the noise of the image in a ring there, as the flux of a Gaussian of the KLIP width at that separation, over the flux of the unocculted star scaled by the transmission of the neutral-density filter at its place, divided by the "
  "KLIP and core throughput interpolated at that separation, whatever the order in which they were measured. The default separations are those of the throughputs; requested ones outside these are undefined; the curve is attached with its separations in "
  "pixels and mas. The image, its other extensions and the star frames stay as they were, every frame is treated by itself, and unusable numbers of frames, widths and star positions are refused.",
  ["inputs"], "any number of frames and modes, separations asked and measured, order, star position, guess, scale, filter map, bad pixels",
  "The test uses one frame with the star guess on the diagonal and ascending separations; three defects were found.",
  [C + "l4_to_tda.py", C + "klip_fm.py"], [("compute_flux_ratio_noise", C + "l4_to_tda.py"), ("measure_noise", C + "klip_fm.py")],
  ["noise-curve extension"],
  "reference-model monitor plus frame independence", "random noise images, Gaussian stars of known height anywhere, gradients in the filter map and scattered separations; every value of the curve is recomputed; frames are run alone and together.",
  "the value interpolated from the neutral-density calibration is taken as transmission factor, as the tests have it; the star height is judged within 0.4%.")

P("P42", "Content hashes, masked views and pickles reflect exactly what an image holds",
  "An image's content hash is the same for equal data, errors and flags, whatever its headers or name, and differs as soon as one data value, error "
  "or flag differs; the hash of detector parameters likewise follows every parameter. The masked view of an image shows its values and hides exactly the "
  "flagged pixels, and any image or calibration product that is pickled and restored has all its content and shares none of it.",
  ["inputs"], "every product class, array type and dimension, every single edited value",
  "Tests add one to a whole array and look at one flagged pixel.",
  [C + "data.py"], [("get_hash / get_masked_data / __init__", C + "data.py")], ["return values", "restored objects"],
  "differential monitor over single-value edits and restored copies",
  "random images and all calibration products: every edit of one number must change the hash, equal content must not; masks are compared pixel by pixel; "
  "pickled objects are compared by deep snapshot and then vandalised.",
  "hashes are not compared across a save and reload (the byte order of the arrays changes).")
