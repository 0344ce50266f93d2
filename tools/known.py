"""Writes known_findings.json: open findings (FINDINGS) and the fix commits of /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> property, what failed
FIXED = {
 "make channel widths positive when reading uvfits with descending channels": ("C02", "descending channels were read with negative channel widths"),
 "describe spectral windows in channel order when writing uvfits": ("C02", "data were swapped between windows when spw_array was not in channel order"),
 "write uvfits for phase centers without an epoch": ("C02", "icrs phase centers without an epoch could not be written"),
 "keep flags and nsamples with their visibilities in conjugate_bls": ("C09", "flags and nsamples of cross-pols stayed behind when baselines were conjugated"),
 "do not keep stale baseline-time order metadata in conjugate_bls": ("C09", "blt_order and rectangularity claims were stale after conjugation"),
 "keep the channel width of single-channel windows when writing miriad": ("C03", "single-channel windows lost their channel width"),
 "write miriad for phase centers without an epoch": ("C03", "icrs phase centers without an epoch could not be written"),
 "match miriad antenna positions to unsorted antenna numbers": ("C03", "antenna positions were attached to other antennas when antenna numbers were unsorted"),
 "convert decreasing indices to the slices that select them": ("C25", "decreasing index sets became slices selecting other elements"),
 "do not conjugate the data on the object when writing an ms with flip_conj": ("C04", "writing with flip_conj conjugated the data of the object in memory"),
 "apply every select keyword when reading file types without select on read": ("C05", "lsts, lst_range, catalog_names (miriad), catalog_names (ms, fhd, mwa) and ant_str (mir) were ignored on read"),
 "allow selecting one channel from each of several spectral windows": ("C05", "selecting one channel per window raised an unrelated error"),
 "select channels across spectral windows when reading uvfits": ("C05", "selecting channels on read of multi-window uvfits failed or was ignored"),
 "apply time and polarization selections to all antenna pairs when reading miriad": ("C05", "time and polarization selections applied only to the last selected antenna pair"),
 "update the rectangularity when selecting baseline-times on read of uvh5": ("C05", "a partial uvh5 read kept claiming a rectangular baseline-time axis"),
 "select on channel numbers also when windows share frequencies": ("C07", "freq_chans also kept the channels of other windows with the same frequency"),
 "keep eq_coeffs in step when select drops antenna metadata": ("C07", "select with keep_all_metadata=False and eq_coeffs failed"),
 "reorder the scan numbers with the baseline-times in reorder_blts": ("C09", "scan_number_array was left in the old order"),
 "do not claim a rectangular baseline-time axis after sorting autos first": ("C09", "sorting autos first claimed a rectangular axis, so access by key returned wrong records"),
 "index the window's own channels when averaging flagged frequencies": ('C12', 'frequency_average failed or treated the wrong channels as fully flagged in all but the first window'),
 'make slices from decreasing indices select those indices': ('C14', 'keyed access returned nothing for decreasing record or polarization indices'),
 'leave out the orientation that lacks the requested polarization in keyed access': ('C14', 'access by (ant1, ant2, pol) failed when both orientations are present and one lacks the polarization'),
 'downsample baselines that have a single integration': ('C11', 'downsample_in_time failed with an IndexError for a baseline with one record'),
 'forget cached indices when reading into an existing object': ('C14', 'keyed access used the indices of the previous data after reading into the object again'),
 'match overlapping and new elements by value when adding UVData objects': ('C08', "adding objects whose records, channels or polarizations partly overlap put the second object's data on the wrong elements"),
 'keep phase center ids consistent when concatenating several UVData objects': ('C08', 'fast_concat of several objects with different phase center ids failed or attached records to the wrong center'),
 'do not keep the baseline-time order when concatenating along that axis': ('C08', 'fast_concat along blt kept a blt_order that was no longer true'),
 'do not move channels between spectral windows when adding UVData objects': ('C08', 'adding objects with windows in different order failed with interspersed windows'),
 'combine scan numbers and equalization coefficients of UVData objects': ('C08', 'objects with scan numbers (eq_coeffs) could not be combined along the baseline-time (frequency) axis'),
 'keep the data on the object when the uvh5 header check fails': ('C06', 'a refused partial write left the object without its data, flags and nsamples'),
 'accept the header of a uvh5 file initialized from a newly made object': ('C06', 'partial writes of an object that was not read from a file were refused although the file was initialised from that object'),
 'point driftscan phase centers to their azimuth, not to its mirror image': ('C10', 'driftscan centers were placed at the mirrored azimuth'),
 'allow phasing selected baseline-times without antenna positions': ('C10', 'phase(select_mask, use_ant_pos=False) failed or mixed records'),
 'only change the uvws of the selected baseline-times in unproject_phase': ('C10', 'unproject_phase(select_mask) replaced the uvws of unselected records'),
 'leave unprojected visibilities alone when recalculating uvws': ('C10', 'set_uvws_from_antenna_positions applied phases to unprojected records of mixed objects'),
 'apply relative antenna position changes to the projected visibilities': ('C10', 'update_antenna_positions(delta_antpos=True) changed the unprojected visibilities, with the opposite sign'),
 'use the frame of the catalog entry when phasing to a looked-up phase center': ('C10', 'phasing to a looked-up center used the default frame for the position angle'),
 'keep integrations within tolerance of the target when upsampling': ('C11', 'upsample_in_time dropped integrations whose length is above the target but within tolerance of it'),
 'update the number of baselines when downsampling drops one': ('C11', 'downsample_in_time(keep_ragged=False) left Nbls/Nants_data stale (and then raised) when every record of a baseline is dropped'),
 'carry the scan numbers through resampling in time': ('C11', 'resampling an object with scan_number_array (every object read from a measurement set) raised or left a wrong-length array'),
 'restore every drift or unprojected phase center after resampling in time': ('C11', 'resampling data with a mix of drift/unprojected/sidereal phase centers rephased sidereal records, lost unprojected names, restored wrong centers and averaged across centers'),
 'allow frequency averaging of a single channel with eq_coeffs': ('C12', 'frequency_average raised on an object with one channel and eq_coeffs'),
 'refuse to average windows of different polarizations together': ('C12', 'frequency_average(respect_spws=False) on a flex-pol object averaged different polarizations together'),
 'drop windows with no channels left after frequency averaging': ('C12', 'frequency_average(keep_ragged=False) left windows without channels in spw_array'),
 'carry eq_coeffs through flex-pol conversions': ('C16', 'convert_to_flex_pol/remove_flex_pol left eq_coeffs with the wrong number of channels'),
 'average fully flagged visibilities when compressing by redundancy': ('C13', 'compress_by_redundancy(average) gave zero data and weight for fully flagged visibilities unless all of the group was flagged'),
 'carry the scan numbers through inflate_by_redundancy': ('C13', 'inflate_by_redundancy raised or mislabelled records when scan_number_array is set'),
 'exchange cross polarizations when averaging conjugated redundant baselines': ('C13', 'compress_by_redundancy(average) averaged xy of one baseline with the conjugate of xy (not yx) of reversed members'),
 'group records by time when normalizing data that are not time ordered': ('C15', 'normalize_by_autos on data not in time order grouped records of different times, so it used autos of the wrong time or flagged good data'),
 'allow summing visibilities read from different files': ('C15', 'sum_vis/diff_vis refused objects read from different files because of the filename parameter'),
 'handle total_quality_array in UVCal flex-Jones conversions': ('C16', 'convert_to_flex_jones/remove_flex_jones on a calibration object with total_quality_array raised or produced a misshapen array'),
 'compare windows of different widths in UVCal.remove_flex_jones': ('C16', 'remove_flex_jones on windows with different channel counts raised a broadcasting error instead of treating them as unmatched'),
 'match x and y in antenna strings on objects with an x_orientation': ('C21', 'antenna strings with x/y letters matched nothing on objects whose x_orientation is set'),
 'refuse antenna lists of different lengths in antnums_to_baseline': ('C21', 'antnums_to_baseline read past the end of the shorter of two antenna lists'),
 'do not hand out the cached list in polarization conversions': ('C24', 'mutating the list returned by polstr2num/polnum2str/jstr2num/jnum2str/conj_pol changed later results'),
 'compute the altitude of positions near the poles': ('C22', 'XYZ -> lat/lon/alt lost up to all precision of the altitude near the poles'),
 'compute the frame position angle of every record and near the poles': ('C23', 'calc_frame_pos_angle left 0 for (ra, dec, time) combinations, and raised or gave wrong angles within half a degree of the poles'),
 "use each record's own position angle when calculating uvws from antenna positions": ('C23', "calc_uvw reused the previous record's rotation when only frame_pa changed"),
 'use coord_epoch for the source position in uvw_track_generator': ('C23', 'coord_epoch was ignored for the apparent position'),
 'interpolate ephemerides across the RA wrap': ('C23', 'ephemerides crossing RA 0 were interpolated through RA pi'),
 'pair each position with its own time in calc_app_coords': ('C23', 'arrays of positions were paired with the sorted unique times instead of their own'),
 'match overlapping and new elements by value when adding UVCal objects': ('C28', 'partly overlapping UVCal adds put gains at the wrong antenna, time, channel or Jones term'),
 'carry scan_number_array along when combining or reordering UVCal objects': ('C28', 'scan numbers were lost or left in the old order'),
 'keep flex_jones_array in step with the windows when combining UVCal objects': ('C28', 'flexible Jones labels did not follow their windows'),
 'combine UVCal total qualities without quality_array or with several wide-band windows': ('C28', 'total qualities were lost or the add failed'),
 'keep phase center ids consistent when concatenating several UVCal objects': ('C28', 'phase center ids of the third and later objects pointed at other sources'),
 'refuse to concatenate UVCal objects with different windows or reference antennas': ('C28', 'fast_concat silently relabelled windows or reference antennas'),
 'accept tuples and arrays of objects in UVCal.fast_concat along time': ('C28', 'a tuple or array of objects made the concatenation fail'),
 'refuse UVCal selections that match no data before changing the object': ('C28', 'a refused selection left the object modified'),
 'leave the channel order alone when adding UVCal objects': ('C28', 'adding along another axis reordered channels inconsistently'),
 'write descending frequencies to calfits in their own order': ('C27', 'descending frequencies came back with a wrong sign or refused'),
 'keep CHWIDTH out of the extra keywords of delay calfits files': ('C27', 'a CHWIDTH extra keyword appeared on re-reading delay calfits'),
 'label Jones terms in the order they are written to MS calibration tables': ('C27', 'gains came back under the other feed'),
 'write UVCal objects with total qualities to MS calibration tables': ('C27', 'the write failed'),
 'write UVCal objects with time ranges and phase centers to MS calibration tables': ('C27', 'the write failed'),
 'index HDF5 datasets with arrays of indices': ('C27', 'partial reads with index arrays returned wrong or failing selections'),
 'refuse to write wide-band gains to calfits, which cannot hold their frequency range': ('C27', 'the frequency range was silently lost'),
 'match gains to visibilities by time and frequency in uvcalibrate': ('C29', 'gains were applied positionally although times or channels were ordered differently'),
 'write real power beams with the polarizations on the polarization axis': ('C32', 'real power beams with more than one polarization could not be read back from beam FITS'),
 'keep only the requested range of descending frequencies in read_beamfits': ('C32', 'freq_range on a file with descending frequencies returned the wrong channels'),
 'keep polarizations with their data when selecting them in another order in UVBeam.select': ('C33', 'selecting feeds/polarizations in another order labelled the data wrongly'),
 'leave the object alone when refusing to add overlapping UVBeam objects': ('C33', 'a refused in-place addition changed the object'),
 'match elements by value when adding UVBeam objects': ('C33', 'adding beams whose axes are ordered differently put values at the wrong element'),
 'return the whole bandpass when not interpolating in frequency': ('C34', 'interp without frequencies returned one bandpass value'),
 'refuse to interpolate healpix beams with pixels in descending order': ('C34', 'pixel values were taken in the wrong order'),
 'refuse to interpolate beams whose basis vectors are rotated either way': ('C34', 'negatively rotated basis vectors passed the alignment test'),
 'do not reuse saved splines for a changed beam or other interpolation options': ('C34', 'reuse_spline returned values of an earlier beam state'),
 'label the requested polarizations and return only those in UVBeam.interp': ('C34', 'interp(polarizations=..., new_object/return_basis) had wrong polarization labels'),
 'select the channel of a UVFlag object that has only one': ('C30', 'select(freq_chans) on a one-channel object raised IndexError'),
 'sort the antenna diameters with the other antenna metadata in UVFlag.sort_ant_metadata_like': ('C30', 'antenna diameters were left in the old order'),
 'collapse the squared weights with the polarizations in UVFlag.collapse_pol': ('C30', 'objects with squared weights could not be collapsed'),
 'broadcast waterfalls whose times are not sorted to the right baseline-times in UVFlag.to_baseline': ('C31', 'unsorted waterfall times were broadcast to other times'),
 'apply flags to their own polarizations in apply_uvflag': ('C31', 'flags with polarizations in another order went to the wrong polarizations'),
 'refuse flags with earlier times or lower frequencies than the data in apply_uvflag': ('C31', 'one-sided mismatch test'),
 'apply flags to the times and frequencies they belong to in apply_uvflag': ('C31', 'baseline flags with records or channels in another order went to the wrong samples'),
 'drop the squared weights of waterfalls when broadcasting UVFlag objects to baselines or antennas': ('C31', 'broadcasting with force_pol raised, or left an array of the wrong shape'),
 'broadcast waterfalls to the baselines of metric objects in UVFlag.to_baseline': ('C31', 'a metric target raised IndexError'),
 'keep antenna metadata aligned when filling it in from known telescopes by name and number': ('C39', 'update_params_from_known_telescopes mixed up antenna names, positions and diameters for antennas in another order than the table'),
 'do not share the Telescope object passed to new_uvdata and new_uvcal between objects': ('C39', 'changing the telescope of one object changed every other object built from the same Telescope'),
 'do not cut off long antenna names in known antenna position tables': ('C39', 'antenna names longer than the first ones in the table were cut'),
 'keep LSTs and integration times with their times in new_uvdata outer products, and only claim a blt_order that holds': ('C40', 'UVData.new with unsorted times and time_axis_faster_than_bls=True attached LSTs and integration times to other times, and reordered antenna pairs; false blt_order for unsorted antennas'),
 'assign integration times derived from unsorted or repeated times to the right times in constructors': ('C40', 'integration times derived from unsorted times were assigned to other times, and Nblts-long times were refused'),
 'use the orientation of the telescope for polarization strings in new_uvdata and new_uvbeam': ('C40', 'UVBeam.new refused directional polarization strings although x_orientation was given'),
 'check the pixel_coordinate_system passed to new_uvbeam rather than refusing all of them': ('C40', 'UVBeam.new refused every explicit pixel_coordinate_system'),
 'split_phase_center without a new name silently did nothing': ('C40', 'split_phase_center without new_name (or with a name in use) did nothing although new_id was given'),
 'merge_phase_centers removed the entry in use when it was identified twice': ('C40', 'merge_phase_centers with one entry identified by both name and id deleted the entry the data refer to'),
 'keep antenna diameters and solutions with their antennas in new_uvcal_from_uvdata': ('C40', 'new_uvcal_from_uvdata with an antenna subset or ant_array swapped diameters and solutions between antennas'),
 'allow empty power beams with cross polarizations in new_uvbeam': ('C40', 'UVBeam.new failed for power beams with cross polarizations and no data'),
 'keep requiring the x_orientation argument for directional polarizations in new_uvdata, as its tests document': ('C40', 'follow-up: restores the documented refusal for new_uvdata'),
 'do not share arrays and file name lists between a UVFlag and the object it is made from': ('C19', 'UVFlag(uvdata) and to_* shared arrays and the filename list with the source object, so changing one changed the other'),
 'refuse unknown blt orders before resampling in time rather than after': ('C19', 'upsample/downsample_in_time with an unknown blt_order resampled the object, then raised'),
 'leave the beam unchanged when part of an in-place UVBeam.select is refused': ('C19', 'UVBeam.select(axis1_inds=..., polarizations=[absent]) cut the image axis and then raised'),
 'reorder_blts accepted index arrays that drop and repeat records': ('C19', 'reorder_blts(order=zeros(Nblts)) replaced every record by the first one'),
 'do not share arrays between a UVFlag and the UVData passed to to_baseline': ('C19', "UVFlag.to_baseline(uv) kept references to uv's arrays"),
 'do not change objects in place when fast_concat refuses to combine them': ('C19', 'refused fast_concat had already merged catalogs / histories in self or changed phase center ids in other'),
 'integer parameters that differ compared as equal when they are large': ('C18', 'objects with different baseline_array or pixel_array numbers above 1e5 compared as equal (relative tolerance applied to integers)'),
 'read only the rows of the spectral window that is kept when other windows of a measurement set are ignored': ('C04', 'read_ms of a file with one many-channel window and single-channel windows read all rows: wrong shapes, heap corruption or crash'),
 'remove the imaginary part of auto-correlations of objects with flexible polarization': ('C17', 'fix_autos raised KeyError for every object with flexible polarization'),
 'keep the sign of Stokes Q, U and V when removing the imaginary part of auto-correlations and power beams': ('C17', 'fix_autos and fix_auto_power flipped the sign of negative pseudo-Stokes values'),
 'flag the data of antennas with small auto-correlations when they are not removed': ('C36', 'van Vleck correction with remove_flagged_ants=False left the antennas it could not correct unflagged'),
 'terminate cable length strings before parsing them': ('C36', 'cable lengths were parsed from an unterminated buffer on the stack (reads past its end; wrong lengths depending on what was there)'),
 'leave the selection given to MirParser.select as it is': ('C35', "MirParser.select and read_mir(select_where=...) replaced entries of the caller's list, so using it again on another dataset selected other sources"),
 'do not set flexible polarizations when they are not allowed reading MIR files': ('C35', 'read_mir(allow_flex_pol=False) of split tunings failed its own check'),
 'count the baselines and times that MIR files have data for': ('C35', 'read_mir failed when some baselines or integrations have no records (Nbls, Ntimes counted from antennas and headers)'),
 'select the requested baselines reading MIR files': ('C35', 'read_mir(bls=...) read all baselines'),
 'accept the antenna names of the object when selecting from MIR files': ('C35', "read_mir(antenna_names=['Ant1', ...]) found no data"),
 'accept polarization numbers when selecting from MIR files': ('C35', 'read_mir(polarizations=[-5]) found no data'),
 'undo the scaling of the weights when undoing the tsys correction of MIR data': ('C35', 'MirParser.apply_tsys(invert=True) scaled the weights the wrong way'),
 'keep the positions of both sets of spectra when combining MIR datasets': ('C35', 'adding two MIR datasets with overlapping header numbers lost the file positions of the first one; loading then failed or returned other data'),
 'compare the stored masks of MirParser objects without auto-correlations': ('C35', 'comparing MirParser objects with saved masks and no auto-correlations raised KeyError'),
 'make copies of MirParser objects without auto-correlations equal to the original': ('C35', 'MirParser.copy() differed from the original'),
 'count the record headers when skipping through MIR data without mmap': ('C35', 'load_data(use_mmap=False) read from wrong positions when integrations differ in size or are skipped, giving garbage or errors'),
 'do not give two MIR codes the same index when combining datasets': ('C35', 'adding two MIR datasets could give two sources the same number'),
 'do not read before the start of empty antenna or baseline arrays': ('C38', 'antnums_to_baseline/baseline_to_antnums read element 0 of arrays without elements'),
 'refuse uvws without three components in old_uvw_calc and its inverse': ('C38', 'old_uvw_calc on uvws with fewer than three components read beyond the array'),
 'refuse single positions without three components': ('C38', 'LatLonAlt_from_XYZ/ENU conversions of a single position with fewer than three components read beyond the array'),
 'refuse cable length strings without a length instead of crashing': ('C38', 'get_cable_len_diffs dereferenced a null pointer on strings such as EL_ or an empty one'),
 'terminate the characters read from Miriad header items': ('C38', 'character header items were read into a buffer without a terminating null'),
 'leave room for the terminating null of the longest Miriad string variables': ('C38', 'one byte written beyond the string buffer for the longest string variables'),
 'read and write 16 bit integer Miriad variables and header items': ('C38', '16 bit integer variables/items were handled as 32 bit ones: reads and writes beyond the buffer'),
 'read Miriad datasets with more than 128 variables or an incomplete variable table': ('C38', 'datasets with 128-256 variables could not be read, an incomplete table was looped over endlessly'),
 'refuse more variables than a Miriad dataset can hold': ('C38', 'variables beyond the 256th overwrote memory after the variable table'),
 'do not use uninitialised variable names when a Miriad variable table is incomplete': ('C38', 'names were used uninitialised for an incomplete variable table'),
 'refuse Miriad paths that do not fit in the buffers of the library': ('C38', "paths longer than the library's buffers overflowed them"),
 'give each MWA dipole its own delay and amplitude': ('C26', 'the dipoles of an MWA tile were sorted by their names as text, so dipoles 2-16 got the delays and amplitudes of other dipoles'),
 'do not change the delays and amplitudes passed to read_mwa_beam': ('C26', 'read_mwa_beam changed the delays and amplitudes arrays of the caller in place'),
 'rotate CST beams on every grid with a multiple of four azimuths': ('C26', 'CST beams with rotate_pol were wrong or refused on azimuth grids other than one degree'),
 'do not add the settings of a CST yaml file to the extra_keywords passed in': ('C26', 'reading a CST settings file changed the extra_keywords dict of the caller'),
 'warn about overriding x_orientation in CST settings files when it is overridden': ('C26', 'the override of x_orientation given with a CST settings file was not reported'),
 'determine the order of baseline-times which are in more than one order at once': ('C09', 'determine_blt_order failed with AssertionError for baseline-times which are in more than one order'),
 'select on catalog_names in the first file of a list as well': ('C37', 'UVData.read of a list did not apply catalog_names to the first file'),
 'use corrchunk, receivers and sidebands for every MIR dataset of a list': ('C37', 'UVData.read of a list of MIR datasets applied corrchunk, receivers and sidebands only to the first one'),
 'read every FHD dataset of a list with its own params, obs, flags, layout and settings files': ('C37', 'UVData.read of several FHD datasets read all but the first with the params, obs, flags, layout and settings files of the first'),
 'name the files which could not be read when reading a list of UVData files': ('C37', 'the warning named the first file of the list for every unreadable file before the first readable one'),
 'skip beam files which cannot be opened if skip_bad_files is set': ('C37', 'UVBeam.read with skip_bad_files failed on files which are missing or no FITS files'),
 'do not concatenate when only one file of a list was read': ('C37', 'UVData.read with axis concatenated nothing when only one file of the list was read (history changed, metadata-only Miriad refused)'),
 'use the options for every file of a list when reading UVFlag files': ('C37', 'history, telescope_name, mwa_metafits_file and the check options were dropped for files of a list'),
 'keep the frequency axis when reading old UVFlag files with one channel': ('C30', 'reading a UVFlag file written with a future-array-shapes-less layout and a single channel dropped the frequency axis'),
 'set positive channel widths when reading old UVFlag files with descending frequencies': ('C30', 'reading an old UVFlag file without channel widths and with descending frequencies set negative channel widths'),
 'select on lst_range by overlap of LST ranges when calibration solutions have time ranges': ('C28', 'selecting on an lst_range that wraps, or on solutions whose LST range wraps, kept the wrong solutions'),
 'write antenna names of more than eight characters to calfits in full': ('C27', 'antenna names longer than eight characters were cut when written to calfits'),
 'write the time spacing to calfits precisely enough for all times': ('C27', 'the times of calfits files with many times drifted because the spacing was rounded'),
 'update Ntimes in inflate_by_redundancy': ('C13', 'inflate_by_redundancy left a stale Ntimes when times without any filled group vanished'),
 'interpolate beams correctly near azimuth zero when the last azimuth repeats the first': ('C34', 'interpolation near azimuth zero used a duplicated sample when the last azimuth repeats the first one'),
}
FINDINGS = []
exec(open(os.path.join(V, "tools/findings_extra.py")).read()) if os.path.exists(os.path.join(V, "tools/findings_extra.py")) else None
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        k = s[5:]
        if k not in FIXED:
            print("no entry for", k); sys.exit(1)
        fixed.append(f"fixed: property={FIXED[k][0]} {h} {FIXED[k][1]}")
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(FINDINGS), "open,", len(fixed), "fixed")
