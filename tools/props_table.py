"""The property table: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

U = "src/pyuvdata/uvdata/"


def P(pid, title, statement, over, text, why, files, mech, level="exploration", technique="", note="", na=None):
    return dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, level=level, technique=technique, note=note, na=na)


PROPS = [
    P("C01", "UVH5 files give back exactly the object that was written",
      "Writing any valid visibility object to UVH5 and reading it back yields the same visibilities, flags, "
      "sample counts, axes, phase centers, telescope metadata, extra keywords and history, whatever the "
      "baseline-time layout, number of spectral windows, compression, chunking or integer storage type used. "
      "Reading only the metadata first and the data later, or through the lazy metadata view, reports the same values.",
      ["inputs", "configurations"], "all valid objects x all write/read options",
      "the suite round-trips a handful of recorded observations with regular layouts; windows, layouts and options interact",
      [U + "uvh5.py", "src/pyuvdata/hdf5_utils.py"],
      [("UVH5.write_uvh5 / _write_header / read_uvh5", U + "uvh5.py"), ("FastUVH5Meta", U + "uvh5.py"), ("HDF5 helpers", "src/pyuvdata/hdf5_utils.py")],
      technique="online write/read monitor on generated objects with uniquely tagged samples"),
    P("C02", "UVFITS files give back the observation that was written",
      "Any object that the UVFITS writer accepts is read back with every visibility, flag, sample count, uvw, time, "
      "frequency, polarization, phase center and antenna attached to the same measurement, within the precision of the format.",
      ["inputs", "configurations"], "all objects representable in UVFITS, with one or several windows and phase centers",
      "half of the upstream UVFITS tests cannot run without downloaded data, the rest use a few single-source files",
      [U + "uvfits.py", "src/pyuvdata/utils/io/fits.py"],
      [("UVFITS.write_uvfits / read_uvfits", U + "uvfits.py")],
      technique="online write/read monitor, order-free measurement ledger compared per sample"),
    P("C03", "Miriad datasets give back the observation that was written",
      "Any object that the Miriad writer accepts is read back with every visibility, flag, uvw, time, frequency, "
      "polarization, phase center, antenna position and extra keyword attached to the same measurement, up to baseline orientation and the precision of the format.",
      ["inputs", "configurations"], "all objects representable in Miriad",
      "tests use a few HERA/PAPER files with one window and contiguous antennas",
      [U + "miriad.py", U + "aipy_extracts.py", U + "src/_miriad_wrap.pyx"],
      [("Miriad.write_miriad / read_miriad", U + "miriad.py")],
      technique="online write/read monitor, orientation-free measurement ledger compared per sample"),
    P("C04", "Measurement sets give back the observation that was written",
      "Any object that the measurement set writer accepts is read back with every visibility, flag, sample count, uvw, "
      "time, frequency, polarization, phase center and antenna attached to the same measurement. Writing leaves the object in memory unchanged.",
      ["inputs", "configurations"], "all objects representable in a measurement set, with and without conjugation flipping",
      "tests use a few recorded sets, sorted times and one window",
      [U + "ms.py", "src/pyuvdata/ms_utils.py"],
      [("MS.write_ms / read_ms", U + "ms.py"), ("table writers", "src/pyuvdata/ms_utils.py")],
      technique="online write/read monitor, orientation-free measurement ledger compared per sample"),
    P("C05", "Selecting while reading equals reading everything and then selecting",
      "For every supported file type and every combination of selection keywords, a selective read returns exactly the "
      "baseline-times, channels and polarizations that the same criteria pick out of the fully read file, with unchanged values. "
      "Reading several files at once equals reading and combining them.",
      ["inputs", "configurations"], "all files x all combinations of selection keywords",
      "tests check single keywords on one file each; partial-read code paths depend on which axis is most selective and on index patterns",
      [U + "uvdata.py", U + "uvh5.py", U + "uvfits.py", U + "miriad.py", "src/pyuvdata/utils/tools.py"],
      [("partial reads", U + "uvh5.py _get_data"), ("UVFITS._get_data", U + "uvfits.py"), ("UVData.read dispatch", U + "uvdata.py"), ("_select_preprocess", U + "uvdata.py")],
      technique="differential monitor: selective read against an independent filter of the full read"),
    P("C06", "Writing a UVH5 file in parts gives the same file as writing it at once",
      "A file initialised empty and filled by any sequence of partial writes whose selections cover the data holds exactly the data written to each region, and untouched regions stay at their initial values. "
      "A partial write into a file that does not match the object, or whose selection or array shapes do not fit, is refused and leaves the file unchanged.",
      ["histories", "inputs", "fault_sequences"], "all sequences of partial writes, orders and index patterns",
      "tests write a few regular blocks; index patterns (slices, scattered, multi-axis) and orders are unbounded",
      [U + "uvh5.py", "src/pyuvdata/utils/tools.py"],
      [("initialize_uvh5_file / write_uvh5_part", U + "uvh5.py"), ("_convert_to_slices", "src/pyuvdata/utils/tools.py")],
      technique="shadow-file model updated per write, compared after every write"),
    P("C07", "Selection keeps exactly the requested measurements",
      "Selecting on a visibility object by any combination of antennas, baselines, antenna strings, times, LSTs, ranges, "
      "frequencies, channels, polarizations, phase centers or indices keeps exactly the samples meeting all criteria, unchanged and in order, with all "
      "counts and derived metadata updated. Criteria naming absent items or matching nothing are refused and leave the object unchanged.",
      ["inputs", "configurations"], "all objects x all keyword combinations",
      "tests exercise keywords mostly one at a time on one file",
      [U + "uvdata.py", "src/pyuvdata/utils/times.py", "src/pyuvdata/utils/bls.py"],
      [("UVData.select / _select_preprocess / _select_by_index", U + "uvdata.py"), ("_select_times_helper", "src/pyuvdata/utils/times.py")],
      technique="online monitor: selection result against an independent row/channel/polarization filter"),
    P("C08", "Combining objects loses, duplicates and mislabels nothing",
      "Adding or concatenating objects that hold disjoint pieces of one observation, in any order and along any axis, "
      "reproduces the whole observation sample for sample, and missing combinations are flagged. Objects with overlapping unflagged data or incompatible metadata are refused, "
      "and a refused combination leaves the operands unchanged.",
      ["inputs", "histories"], "all partitions of an observation along one or more axes and all orders of recombination",
      "tests split one file at fixed points along each axis",
      [U + "uvdata.py"],
      [("UVData.__add__ / fast_concat", U + "uvdata.py")],
      technique="conservation monitor over sample ledgers of operands and result"),
    P("C09", "Reordering and conjugating only relabel the data",
      "Reordering baseline-times, channels or polarizations and conjugating baselines, in any sequence, changes only order and orientation: every measurement keeps its "
      "value, flag, weight and coordinates, with complex conjugation, uvw sign and cross-polarization swapped for reoriented baselines. "
      "Afterwards the axes are in the requested order and everything the object claims about its ordering is true.",
      ["inputs", "histories"], "all objects x all sequences of reorder and conjugate operations",
      "tests apply single operations to regular files",
      [U + "uvdata.py", "src/pyuvdata/utils/bltaxis.py", "src/pyuvdata/utils/frequency.py"],
      [("reorder_blts, reorder_freqs, reorder_pols, conjugate_bls", U + "uvdata.py"), ("determine_rectangularity", "src/pyuvdata/utils/bltaxis.py")],
      technique="online monitor: orientation-free ledger invariant after every operation, plus truth of ordering claims"),
    P("C10", "Phasing changes phase only, consistently and reversibly",
      "Phasing to any sidereal, ephemeris, driftscan or unprojected center leaves amplitudes, flags and weights alone, makes the visibilities and uvws those of the new "
      "center as derived independently from the antenna positions, and only affects the selected baseline-times. "
      "Going through any sequence of centers and back restores the original visibilities and uvws.",
      ["inputs", "histories"], "all objects x all sequences of phase centers, with or without antenna positions",
      "tests phase a few files to a few centers and compare with recorded values",
      [U + "uvdata.py", "src/pyuvdata/utils/phasing.py", "src/pyuvdata/utils/phasing.pyx"],
      [("phase, unproject_phase, phase_to_time, fix_phase", U + "uvdata.py"), ("calc_uvw, rotations", "src/pyuvdata/utils/phasing.py")],
      technique="online monitor: independent uvw/delay model, path-independence and reversibility of phasing histories"),
    P("C11", "Resampling in time conserves data and exposure",
      "Averaging in time yields, for every baseline, the sample-weighted mean of exactly the unflagged records inside each output interval and the sum of their exposures, without mixing baselines or phase centers; "
      "upsampling splits each record into equal parts with the same value and total exposure. Downsampling after upsampling restores the data.",
      ["inputs", "configurations"], "all time layouts, flags, weights, integration times and averaging options",
      "tests use one regular file and check a couple of baselines",
      [U + "uvdata.py"],
      [("upsample_in_time, downsample_in_time, resample_in_time", U + "uvdata.py")],
      technique="online monitor: independent per-baseline binning model"),
    P("C12", "Frequency averaging gives the right averages",
      "Averaging channels produces for every baseline-time, window and polarization the mean of the unflagged channels of each group, the group's mean frequency and total width, "
      "flags only where all (or, on request, any) contributions are flagged, and never mixes windows.",
      ["inputs", "configurations"], "all flag patterns, channel counts, window layouts and options",
      "tests use small fixed averaging factors on one file",
      [U + "uvdata.py"], [("frequency_average", U + "uvdata.py")],
      technique="online monitor: independent per-group averaging model"),
    P("C13", "Redundancy grouping and compression are faithful",
      "Redundant groups partition the baselines so that every baseline is within tolerance of its group's vector (with conjugates identified as such), found identically from the data and from the antennas. "
      "Compressing keeps, for each group and time, the chosen baseline or the weighted average of the group, and inflating assigns to every baseline of the array the value of its group in the right orientation.",
      ["inputs", "configurations"], "all array layouts and tolerances, all baseline subsets and orientations",
      "tests use two array layouts",
      ["src/pyuvdata/utils/redundancy.py", U + "uvdata.py"],
      [("get_redundancies, compress_by_redundancy, inflate_by_redundancy", U + "uvdata.py"), ("get_baseline_redundancies", "src/pyuvdata/utils/redundancy.py")],
      technique="online monitor: independent vector-distance oracle over generated grids"),
    P("C14", "Access by key always reaches the right measurements",
      "After any history of operations, getting or setting data, flags, weights, times or uvws by antenna pair, baseline number or polarization addresses exactly the records of that key, "
      "conjugating when the key is given in reverse, and setting then getting returns what was set without touching any other record. Iterating over keys visits every measurement exactly once.",
      ["histories", "inputs"], "all objects reached by operation histories x all keys",
      "the index cache and slice shortcuts depend on the history of the object; tests query fresh objects",
      [U + "uvdata.py", "src/pyuvdata/utils/bls.py"],
      [("_key2inds, antpair2ind cache, _smart_slicing, set_data", U + "uvdata.py")],
      technique="trace monitor: keyed access against brute-force search after each operation of a random history"),
    P("C15", "Arithmetic and normalisation of visibilities is sample-exact",
      "Summing or differencing objects, dividing by autocorrelations and undoing it, and removing equalisation coefficients act on every sample with the right operand and leave the other quantities alone; "
      "operands whose axes do not correspond are refused and left unchanged.",
      ["inputs"], "all objects and operand pairs",
      "tests compare one file with itself",
      [U + "uvdata.py"], [("sum_vis, diff_vis, normalize_by_autos, remove_eq_coeffs", U + "uvdata.py")],
      technique="online monitor: independent per-sample recomputation"),
    P("C16", "Flexible-polarization conversion is lossless",
      "Converting an object to flexible polarization and back keeps every measurement with its polarization and frequency, pads only with flagged samples, and selecting on polarization in either form gives the same measurements.",
      ["inputs", "histories"], "all window/polarization assignments",
      "tests use one converted file",
      [U + "uvdata.py", "src/pyuvdata/uvcal/uvcal.py"], [("convert_to_flex_pol, remove_flex_pol", U + "uvdata.py")],
      technique="conservation monitor over (record, frequency, polarization) ledgers"),
    P("C17", "Inconsistent objects are rejected",
      "The object check accepts every consistent object and raises on any object with a wrong array shape, type or count, out-of-vocabulary value, antenna or phase center or spectral window reference that does not exist, coordinates of auto-correlations that are not zero, "
      "or (when asked to look) auto-correlations that are not real; LSTs that disagree with times and location are warned about. "
      "Checking never changes an object unless a fix was asked for, and the visibility, calibration and beam writers run the same check so such objects do not reach files.",
      ["inputs"], "all single corruptions of all valid objects of every class",
      "tests corrupt a few attributes of one object",
      ["src/pyuvdata/uvbase.py", "src/pyuvdata/parameter.py", U + "uvdata.py"], [("UVBase.check", "src/pyuvdata/uvbase.py"), ("UVData.check", U + "uvdata.py")],
      level="fault_enumeration", technique="mutation of valid objects, acceptance/rejection monitored against a rule table"),
    P("C18", "Equality and copies tell the truth",
      "A copy of any object equals it and shares no mutable state with it, and two objects compare unequal exactly when some required or optional value (other than the file name) differs beyond its tolerance, symmetrically; integers and strings have to match exactly. "
      "Equality never depends on the order of operands and comparing never changes an object.",
      ["inputs"], "all objects of every class x all single differences",
      "tests compare a few parameters",
      ["src/pyuvdata/uvbase.py", "src/pyuvdata/parameter.py"], [("UVBase.__eq__, copy", "src/pyuvdata/uvbase.py"), ("UVParameter.__eq__", "src/pyuvdata/parameter.py")],
      level="fault_enumeration", technique="mutation monitor over every attribute with alias tracking"),
    P("C19", "Out-of-place and failing operations leave their inputs unchanged",
      "An operation asked to return a new object never modifies the original and shares no writable array with it, gives the same result as the in-place form, and an operation that raises because of its arguments leaves the object as it was.",
      ["histories", "fault_sequences"], "all operations x all objects, including failing argument combinations",
      "tests rarely look at the original afterwards",
      [U + "uvdata.py", "src/pyuvdata/uvcal/uvcal.py", "src/pyuvdata/uvbeam/uvbeam.py", "src/pyuvdata/uvflag/uvflag.py"],
      [("inplace handling of every operation", U + "uvdata.py")],
      technique="snapshot monitor before/after every call, memory-overlap sanitizer on returned arrays"),
    P("C20", "Existing files are never overwritten unasked",
      "Every writer that has a clobber option (all but UVFITS, which always overwrites) refuses to write onto an existing path unless told to overwrite, leaving the existing bytes and its neighbours untouched; when told to overwrite, the result holds only the new content. "
      "A write that is refused because the object fails its check, or a partial write that does not match the file, leaves no changed file behind, and written files keep the prior history text.",
      ["configurations", "fault_sequences"], "all writers x all pre-existing paths x valid and invalid objects",
      "tests check one clobber per writer",
      [U + "uvh5.py", U + "uvfits.py", U + "miriad.py", U + "ms.py", "src/pyuvdata/uvcal/calfits.py", "src/pyuvdata/uvbeam/beamfits.py", "src/pyuvdata/uvflag/uvflag.py"],
      [("clobber checks", "write_* of every class")],
      level="fault_enumeration", technique="file-system monitor: byte digests of pre-existing files around every write"),
    P("C21", "Baseline numbers identify antenna pairs",
      "Converting antenna pairs to baseline numbers and back is the identity for every pair within the supported range and every numbering scheme, distinct pairs get distinct numbers, and antenna numbers outside the range are refused rather than aliased. "
      "Antenna-string parsing and polarization-qualified selection return exactly the pairs the string names.",
      ["inputs"], "all antenna pairs and numbering schemes",
      "tests check a few pairs near the boundaries",
      ["src/pyuvdata/utils/bls.py", "src/pyuvdata/utils/bls.pyx"], [("antnums_to_baseline, baseline_to_antnums, parse_ants", "src/pyuvdata/utils/bls.py")],
      technique="inverse/injectivity monitor over stratified and random pairs"),
    P("C22", "Coordinate transformations are mutually inverse and geometrically right",
      "Conversions between geocentric, geodetic, local east-north-up and rotated frames round-trip for every location on Earth or Moon and for arrays of any size, keep distances, and agree with independent references; "
      "results do not depend on whether points are converted one at a time or together.",
      ["inputs"], "all locations, ellipsoids and positions",
      "tests check a few sites",
      ["src/pyuvdata/utils/coordinates.py", "src/pyuvdata/utils/coordinates.pyx"], [("XYZ_from_LatLonAlt, ENU_from_ECEF, rotECEF_from_ECEF", "src/pyuvdata/utils/coordinates.py")],
      technique="reference monitor (astropy / direct formulas), inverse and isometry checks"),
    P("C23", "LSTs, apparent positions and uvws follow from time and place",
      "Sidereal times, apparent coordinates, position angles, interpolated ephemerides and baseline coordinates computed for any site, time and source agree with independent astronomy references within the documented accuracy, are independent of the order and repetition of the input times, "
      "and transforming coordinates forth and back is the identity.",
      ["inputs"], "all sites, times, sources and frames",
      "tests use one time and site and recorded values",
      ["src/pyuvdata/utils/phasing.py", "src/pyuvdata/utils/times.py"], [("get_lst_for_time", "src/pyuvdata/utils/times.py"), ("calc_app_coords, calc_frame_pos_angle, calc_uvw", "src/pyuvdata/utils/phasing.py")],
      technique="reference monitor against astropy/ERFA and order-independence checks"),
    P("C24", "Polarization names and numbers correspond",
      "Polarization and Jones strings and numbers convert both ways for every vocabulary entry, orientation and case, conjugation is an involution matching antenna exchange, and reordering maps are permutations giving the requested convention.",
      ["inputs", "configurations"], "the whole vocabulary x orientations",
      "tests sample a few strings",
      ["src/pyuvdata/utils/pol.py"], [("polstr2num, polnum2str, jstr2num, conj_pol, determine_pol_order", "src/pyuvdata/utils/pol.py")],
      technique="exhaustive vocabulary monitor against an independent table"),
    P("C25", "Masked and weighted collapses compute what they name",
      "Collapsing an array along any axes with any mask, weights and algorithm returns the named statistic of the unmasked samples with correct weight outputs, and index sets converted to slices select exactly the same elements in the same order.",
      ["inputs"], "all arrays, masks, weights, axes and algorithms; all index patterns",
      "tests use constant arrays",
      ["src/pyuvdata/utils/array_collapse.py", "src/pyuvdata/utils/tools.py"], [("collapse and the *_collapse functions", "src/pyuvdata/utils/array_collapse.py"), ("_convert_to_slices", "src/pyuvdata/utils/tools.py")],
      technique="reference monitor: direct computation"),
    P("C26", "Beam simulations are read as the fields they hold",
      "Reading CST exports (single files, lists over frequency or feed in any order, or settings files with and without overrides) or the MWA embedded-element file gives at every direction, frequency and feed the field or power tabulated or implied by the modes, delays and amplitudes of each dipole, with rotated feeds turned by 90 degrees and all labels as given; files that are not on a regular grid or arguments that do not fit together are refused, and the arguments are not modified. "
      "Lists that span several frequencies and several feeds at once are not claimed.",
      ["inputs", "configurations"], "all grids, file lists, column layouts, dipole settings",
      "upstream tests need downloaded CST files; MWA tests compare one number",
      ["src/pyuvdata/uvbeam/cst_beam.py", "src/pyuvdata/uvbeam/mwa_beam.py", "src/pyuvdata/uvbeam/uvbeam.py"], [("CSTBeam.read_cst_beam, MWABeam.read_mwa_beam, UVBeam.read_cst_beam", "src/pyuvdata/uvbeam/")],
      technique="synthetic exports with known tables and an independent vector spherical harmonic evaluation as online oracle"),
    P("C27", "Calibration files give back the solutions that were written",
      "Writing any valid calibration object to CalFITS, CalH5 or (where representable) a measurement set and reading it back, fully or selectively, yields the same gains or delays, flags, qualities, axes and metadata.",
      ["inputs", "configurations"], "all calibration styles, types, window layouts and options",
      "tests use one gain and one delay file",
      ["src/pyuvdata/uvcal/calfits.py", "src/pyuvdata/uvcal/calh5.py", "src/pyuvdata/uvcal/ms_cal.py"], [("write/read of CalFITS, CalH5, MSCal", "src/pyuvdata/uvcal/")],
      technique="online write/read monitor on generated calibration objects"),
    P("C28", "Calibration objects are selected, combined and reordered faithfully",
      "Selecting, adding, concatenating, reordering and converting calibration objects keeps exactly the solutions asked for, each with its own flag, quality, antenna, frequency, time and Jones term; overlapping data are refused and delay-to-gain conversion computes the corresponding phase at every frequency.",
      ["inputs", "histories"], "all calibration objects x operations",
      "tests use two files",
      ["src/pyuvdata/uvcal/uvcal.py"], [("select, __add__, fast_concat, reorder_*, convert_to_gain", "src/pyuvdata/uvcal/uvcal.py")],
      technique="conservation monitor over solution ledgers"),
    P("C29", "Applying calibration multiplies every visibility by the right gains",
      "Applying a calibration object divides (or, for the other convention or when undoing, multiplies) each visibility by the product of the first antenna's gain and the conjugate of the second's at that time, frequency and polarization, flags what the calibration flags, and undoing it restores the visibilities. "
      "Missing antennas, times or frequencies are refused or flagged as requested, never silently paired with another's gain.",
      ["inputs", "configurations"], "all pairs of visibility and calibration objects and options",
      "tests check one baseline of one file",
      ["src/pyuvdata/utils/uvcalibrate.py"], [("uvcalibrate, _get_pol_gains", "src/pyuvdata/utils/uvcalibrate.py")],
      technique="online monitor: independent gain application per sample"),
    P("C30", "Flag objects are stored, selected and combined faithfully",
      "Writing a flag or metric object and reading it back, and selecting, adding, sorting or antenna-expanding it, keeps every flag, metric and weight with its own time, antenna or baseline, frequency and polarization.",
      ["inputs", "histories"], "all types (baseline, antenna, waterfall) and modes",
      "tests use one file per type",
      ["src/pyuvdata/uvflag/uvflag.py"], [("read, write, select, __add__, sort_ant_metadata_like", "src/pyuvdata/uvflag/uvflag.py")],
      technique="conservation monitor over flag ledgers, write/read monitor"),
    P("C31", "Flag conversions and applications are exact",
      "Converting between flags and metrics, collapsing to or expanding from waterfalls, antennas and baselines, thresholding, combining and applying flags to data put exactly the flag or metric implied by the sources at every time, baseline, frequency and polarization, and or-ing never clears a flag.",
      ["inputs", "histories"], "all flag objects and conversions",
      "tests use one file per type",
      ["src/pyuvdata/uvflag/uvflag.py", "src/pyuvdata/utils/apply_uvflag.py"], [("to_waterfall, to_baseline, to_antenna, to_flag, to_metric, __ior__, apply_uvflag", "src/pyuvdata/uvflag/uvflag.py")],
      technique="online monitor: independent per-sample flag model"),
    P("C32", "Beam files give back the beam that was written",
      "Writing any valid efield or power beam on a regular or HEALPix grid to beam FITS and reading it back yields the same values, axes, basis vectors, feeds or polarizations and metadata, also for partial reads.",
      ["inputs", "configurations"], "all beam types, pixelisations and optional metadata",
      "most upstream beam tests need downloaded files",
      ["src/pyuvdata/uvbeam/beamfits.py"], [("BeamFITS.write_beamfits / read_beamfits", "src/pyuvdata/uvbeam/beamfits.py")],
      technique="online write/read monitor on generated beams"),
    P("C33", "Beams are selected and combined faithfully",
      "Selecting from or adding beams keeps exactly the requested pixels, frequencies, feeds and polarizations with their values; overlapping pieces are refused, and a beam split along any axis and recombined in any order is the original.",
      ["inputs", "histories"], "all beams and partitions",
      "tests need downloaded files",
      ["src/pyuvdata/uvbeam/uvbeam.py"], [("select, __add__", "src/pyuvdata/uvbeam/uvbeam.py")],
      technique="conservation monitor over beam ledgers"),
    P("C34", "Beam transformations compute what they name",
      "Conversion to power or Stokes, peak normalisation, interpolation and area computations give the values defined by the efield samples: interpolating at the sampled points returns the samples, power is the product of the feeds' responses for every feed pair, and results do not depend on the order or batching of requested directions and frequencies.",
      ["inputs", "configurations"], "all beams, directions and options",
      "tests need downloaded files",
      ["src/pyuvdata/uvbeam/uvbeam.py", "src/pyuvdata/uvbeam/uvbeam.pyx"], [("efield_to_power, efield_to_pstokes, peak_normalize, interp, get_beam_area", "src/pyuvdata/uvbeam/uvbeam.py")],
      technique="online monitor: direct formula recomputation"),
    P("C35", "SMA MIR data are read, selected and written consistently",
      "Reading a MIR dataset puts every spectrum, with its flags and weights, at the baseline, time, frequency window, polarization and source of its record, scaled by the system temperatures of its two antennas when asked, and read-time selections keep exactly the records that match; whatever history of selections, resets, saved masks, loading, spectral averaging and copying a MirParser goes through, data and metadata stay together and follow the selections; writing (at once or appended in pieces), re-reading and adding datasets preserve every record. Auto-correlations, COMPASS solutions and Doppler corrections are not claimed.",
      ["inputs", "histories"], "all record layouts, selections and write/read cycles of MIR datasets",
      "tests use one dataset with a single integration of one baseline",
      [U + "mir.py", U + "mir_parser.py", U + "mir_meta_data.py"], [("MirParser, MirMetaData, Mir.read_mir", U + "mir_parser.py")],
      technique="synthetic datasets with known records; trace monitor over histories of the parser against a shadow table"),
    P("C36", "MWA correlator data are mapped to the right baselines and corrected as asked",
      "Reading MWA correlator files (legacy or MWAX) places every correlator product at its antenna pair, polarization, time and frequency with the right conjugation, flags what is missing or was asked to be flagged and nothing else, and each requested correction (digital gains, coarse bandpass, cable delays, van Vleck, phasing) acts exactly once on the right samples. Frequencies are claimed for contiguous coarse channels.",
      ["inputs", "configurations"], "all file layouts, gaps and correction options",
      "upstream tests need downloaded files",
      [U + "mwa_corr_fits.py", U + "corr_fits.pyx"], [("MWACorrFITS.read_mwa_corr_fits, correct_cable_length, van_vleck_correction", U + "mwa_corr_fits.py")],
      technique="synthetic correlator files with tagged samples; independent mapping model and numerically integrated quantizer as oracle"),
    P("C37", "Reading a list of files equals combining the files read one by one",
      "For every file format and object type, reading a list of files in one call (with any selection, options, axis and receiving object) gives what is obtained by reading every file alone with the same options and combining the objects; every option reaches every file. With skip_bad_files unreadable files are left out, and reported by name; without it they are refused. Nothing the receiving object held before survives.",
      ["inputs", "configurations", "fault_sequences"], "all lists of files, options and unreadable files among them",
      "the options are passed on in several hand-written calls with up to 80 keywords each; tests read lists with few options and good files",
      [U + "uvdata.py", "src/pyuvdata/uvcal/uvcal.py", "src/pyuvdata/uvbeam/uvbeam.py", "src/pyuvdata/uvflag/uvflag.py"],
      [("UVData.read", U + "uvdata.py"), ("UVCal.read", "src/pyuvdata/uvcal/uvcal.py"), ("UVBeam.read", "src/pyuvdata/uvbeam/uvbeam.py"), ("UVFlag.read, UVFlag.__init__", "src/pyuvdata/uvflag/uvflag.py")],
      technique="differential runtime monitor with injected unreadable files: list read vs. combination of single reads"),
    P("C38", "Native code stays inside its buffers",
      "For every input accepted by the Python layer the compiled extensions read and write only memory they own, without undefined arithmetic, whatever the array sizes, strides, dtypes and file contents, including truncated or incomplete Miriad datasets (a library error that ends the process with an exit status is not a violation; arbitrarily altered bytes inside a dataset are not claimed). Miriad items and variables of every type and length are read back as written.",
      ["inputs", "fault_sequences"], "all inputs to the compiled extensions and Miriad C library",
      "extensions are compiled without bounds checks; out-of-bounds accesses are silent in normal runs",
      ["src/pyuvdata/utils/bls.pyx", "src/pyuvdata/utils/coordinates.pyx", "src/pyuvdata/utils/phasing.pyx", "src/pyuvdata/uvbeam/uvbeam.pyx", U + "corr_fits.pyx", U + "src/"],
      [("Cython kernels", "*.pyx"), ("miriad C library", U + "src")],
      technique="AddressSanitizer/UndefinedBehaviorSanitizer build with Cython index checks, driven by stress workloads"),
    P("C39", "Telescope and antenna metadata stay consistent",
      "Whatever the source of telescope metadata, antenna names, numbers, positions and diameters stay aligned element by element; converting, setting from known telescopes, replacing antennas or sharing a telescope between objects never swaps an antenna's attributes and keeps positions in the same place on Earth.",
      ["inputs", "histories"], "all antenna orders and known telescopes",
      "tests use sorted antennas",
      ["src/pyuvdata/telescopes.py", U + "initializers.py"], [("Telescope.new, from_known_telescopes, update_params_from_known_telescopes, get_enu_antpos", "src/pyuvdata/telescopes.py")],
      technique="online monitor: per-antenna attribute ledger"),
    P("C40", "Objects built from scratch hold what was given",
      "UVData.new, UVCal.new, new_uvcal_from_uvdata and UVBeam.new return objects in which every record has the time, antenna pair, LST, integration time, phase center, frequency, polarization and data it was given, "
      "in the order given, whatever the layout, ordering of times and antennas or the form of the arguments; arguments that do not fit together are refused and the inputs are not modified. "
      "Renaming, splitting or merging phase centers changes only which catalog entry records belong to.",
      ["inputs", "configurations"], "all argument combinations, layouts and antenna/time orders",
      "tests use sorted times and antennas",
      [U + "initializers.py", "src/pyuvdata/uvcal/initializers.py", "src/pyuvdata/uvbeam/initializers.py", U + "uvdata.py"],
      [("new_uvdata, configure_blt_rectangularity, get_time_params", U + "initializers.py"), ("new_uvcal, new_uvcal_from_uvdata", "src/pyuvdata/uvcal/initializers.py"), ("new_uvbeam", "src/pyuvdata/uvbeam/initializers.py"),
       ("rename/split/merge_phase_center(s)", U + "uvdata.py")],
      technique="online monitor: record-by-record comparison with an independent construction"),
]
