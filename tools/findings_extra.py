FINDINGS.append({"property": "C35", "mechanism": "read_mir-lst_range-ignored", "what": "read_mir(lst_range=...) has no effect: the selection names a field that does not exist and unknown fields are skipped. Not repaired: the existing test passes lst_range=[2, 2.5] for a dataset at 0.63 rad and expects all of it, so reading the range in radians as documented fails that test."})
FINDINGS.append({"property": "C26", "mechanism": "mwa-beam-components-exchanged", "what": "read_mwa_beam puts the zenith-angle component of the response first and minus the azimuth component second, while the basis_vector_array it sets (and the CST reader) say azimuth first, zenith angle second. Not repaired: exchanging the components changes the convention every user of these beams has adapted to."})
FINDINGS.append({"property": "C37", "mechanism": "beam-list-names-wrong-unreadable-file", "what": "UVBeam.read of a list with skip_bad_files names the first readable file instead of the unreadable one in its warning when a later file cannot be read. Not repaired: an existing test (test_generic_read_multi_bad_files) asserts the wrong name."})
