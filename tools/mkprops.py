"""Writes /verif/properties.jsonl (the statements live here, one place)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


p("C01", "Smith normal form decomposition is exact",
  "For every integer supercell matrix in Hermite normal form the computed decomposition (S, L, R) satisfies "
  "L*H*R = S exactly, with S diagonal and positive, each diagonal entry dividing the next, their product equal to "
  "the determinant, and L and R unimodular integer matrices. The computation always terminates with such a result.",
  ["inputs"], "all integer matrices in Hermite normal form, of any determinant",
  "the tests compare a few dozen matrices with stored answers; the elimination loop takes different paths for "
  "different divisibility patterns",
  ["phenum/grouptheory.py"], [("SmithNormalForm", "phenum/grouptheory.py:267")], "return value of SmithNormalForm")
p("C02", "All supercell shapes of an index are listed, each once",
  "For every index n the list of supercell matrices contains every integer 3x3 matrix in (lower triangular) Hermite "
  "normal form with determinant n, and contains nothing else and nothing twice.",
  ["inputs"], "every index n >= 1 and every Hermite-normal-form matrix of that determinant",
  "the tests check some counts and stored lists of small indices",
  ["phenum/HNFs.py"], [("_get_HNF_diagonals", "phenum/HNFs.py:4"), ("find_all_HNFs", "phenum/HNFs.py:28")],
  "return value of find_all_HNFs")
p("C03", "Symmetry-distinct supercells: one representative per class",
  "For every parent lattice with its atoms and every index n, the supercells kept are exactly one from every class of "
  "supercells related by a symmetry operation of the parent crystal: every Hermite normal form of index n is equivalent "
  "to a kept one, and no two kept ones are equivalent. The degeneracy reported with a kept supercell is the number of "
  "supercells in its class.",
  ["inputs"], "all parent lattices and bases (any Bravais type, any choice of basis vectors), all indices",
  "the tests compare a few lattices with stored lists",
  ["phenum/HNFs.py", "phenum/grouptheory.py"],
  [("remove_duplicate_lattices", "phenum/HNFs.py:54"), ("_is_equiv_lattice", "phenum/grouptheory.py:123"),
   ("_get_sLV_fixing_operations", "phenum/grouptheory.py:150")], "return values of get_HNFs and remove_duplicate_lattices")
p("C04", "Symmetry operations are exactly those of lattice and crystal",
  "The rotations found for a lattice are exactly the isometries that map the lattice onto itself, each once. The "
  "operations found for a crystal are exactly the pairs of such a rotation and a shift that map its atoms, species by "
  "species, onto themselves modulo lattice translations.",
  ["inputs"], "all lattices and all atom positions and species in the cell",
  "the tests compare stored operation lists for about ten crystals",
  ["phenum/symmetry.py"], [("get_lattice_pointGroup", "phenum/symmetry.py:197"), ("get_spaceGroup", "phenum/symmetry.py:271"),
                           ("_does_mapping_exist", "phenum/symmetry.py:97")], "return values")
p("C05", "Wrapping an atom into the cell only moves it by lattice vectors",
  "Bringing a position into the unit cell terminates and gives a position whose lattice coordinates lie in [0,1) up to "
  "the tolerance and which differs from the original by an integer combination of lattice vectors. Converting atom "
  "positions from Cartesian to lattice coordinates does the same.",
  ["inputs"], "all real positions (inside and far outside the cell) and all non-degenerate cells",
  "tests use a few positions; the wrap loops and the tolerance branches depend on the position",
  ["phenum/symmetry.py", "phenum/vector_utils.py"],
  [("bring_into_cell", "phenum/symmetry.py:153"), ("cartesian2direct", "phenum/vector_utils.py:432")], "return values")
p("C06", "The supercell's permutation group matches its real symmetries",
  "For a parent crystal and a supercell, the site permutations listed are exactly those caused by the crystal's "
  "symmetry operations (with all translations) that leave the superlattice invariant, each once, with the pure "
  "translations first. The permutation of displacement directions paired with each one is the action of the same "
  "rotation on the Cartesian axes.",
  ["inputs"], "all parent crystals whose rotations permute the Cartesian axes where displacements are used (otherwise all "
  "crystals), all supercells",
  "the tests compare stored groups of a handful of supercells",
  ["phenum/grouptheory.py"], [("get_sym_group", "phenum/grouptheory.py:723"),
                              ("_get_rotation_perms_lists", "phenum/grouptheory.py:491"),
                              ("_get_dvector_permutations", "phenum/grouptheory.py:411")], "return value of get_sym_group")
p("C07", "Colourings and displacement patterns are numbered one to one",
  "For every composition the numbering of colourings gives each colouring of that composition its own number tuple "
  "within the stated ranges, and decoding returns the colouring that was encoded; the ranges multiply to the number of "
  "colourings. The numbering of displacement patterns is likewise a bijection onto 0..k^m-1. Binomial and multinomial "
  "coefficients are exact.",
  ["inputs"], "all compositions and colourings, all numbers of displaced atoms and directions",
  "tests check single values; a wrong digit only shows for particular colourings",
  ["phenum/tree.py", "phenum/phonons.py", "phenum/numerics.py"],
  [("_hash", "phenum/tree.py:28"), ("_invhash", "phenum/tree.py:56"), ("_coefficients", "phenum/tree.py:4"),
   ("_ahash", "phenum/phonons.py:504"), ("_ainvhash", "phenum/phonons.py:521"),
   ("binomial_coefficient", "phenum/numerics.py:29")], "return values")
p("C08", "Enumeration lists each inequivalent arrangement exactly once",
  "For a supercell's permutation group and a composition, the enumeration (without displacements) returns exactly one "
  "arrangement of every equivalence class that is not superperiodic (not invariant under a nontrivial translation); with "
  "superperiodic structures requested, exactly one of every class. Every arrangement returned has the composition asked "
  "for.",
  ["inputs"], "all permutation groups of supercells (and any group with its translations first), all compositions",
  "the tests compare stored lists of some systems; completeness and uniqueness must hold for every colouring",
  ["phenum/tree.py"], [("brancher", "phenum/tree.py:291"), ("_perm", "phenum/tree.py:116")], "return value of brancher")
p("C09", "Enumeration with displacements lists each inequivalent one once",
  "With displaced atoms, the enumeration returns exactly one of every class of combined arrangements (species and "
  "displacement direction of every atom) under the group acting on sites and directions together, superperiodic ones "
  "left out unless requested. Each returned one has the requested numbers of displaced and undisplaced atoms of each "
  "species, and the split of the composition into displaced and undisplaced parts takes exactly the requested number of "
  "atoms.",
  ["inputs"], "all permutation groups acting on sites and directions, all compositions with displaced atoms",
  "the tests compare stored results of a few systems",
  ["phenum/tree.py", "phenum/phonons.py"],
  [("add_arrows", "phenum/phonons.py:98"), ("brancher", "phenum/tree.py:291"), ("arrow_concs", "phenum/phonons.py:314"),
   ("how_many_arrows", "phenum/phonons.py:32")], "return values of brancher and add_arrows")
p("C10", "The Polya count is the exact number of inequivalent arrangements",
  "For every permutation group acting on sites, and on displacement directions, and every composition (with any numbers "
  "of displaced atoms), the predicted number of arrangements is exactly the number of orbits of the group on the "
  "arrangements of that composition, however large.",
  ["inputs"], "all groups, all compositions, all arrow counts",
  "the tests compare stored counts; the polynomial bookkeeping must be right for every cycle type",
  ["phenum/polyaburnside.py"], [("polya", "phenum/polyaburnside.py:489"), ("_group_to_cyclic", "phenum/polyaburnside.py:404"),
                                ("Product", "phenum/polyaburnside.py:142"), ("Sequence", "phenum/polyaburnside.py:12")],
  "return value of polya")
p("C11", "Sampled enumerations are honest subsets of the full enumeration",
  "When only part of the arrangements of a supercell is asked for (a list of ordinal numbers or a number of "
  "structures), the result consists of that many pairwise inequivalent arrangements of the right composition from the "
  "full enumeration, whatever the random choices; a list of ordinals returns exactly the arrangements at those "
  "positions. Asking for all of them returns the complete enumeration with as many members as predicted.",
  ["inputs", "schedules"], "all groups, compositions, subset requests and random draws",
  "tests fix the random seed and compare with one stored outcome",
  ["phenum/phonons.py", "phenum/tree.py"], [("enum_sys", "phenum/phonons.py:376"), ("brancher", "phenum/tree.py:291")],
  "return values of enum_sys and brancher")
p("C12", "Random guess-and-check sampling returns distinct structures",
  "For very large enumerations structures are drawn at random: whatever the draws, the sampled arrangements all have "
  "the requested composition and displacements, are pairwise inequivalent under the group, are not superperiodic unless "
  "those are allowed, and their number never exceeds the number requested.",
  ["inputs", "schedules"], "all groups, compositions and sequences of random draws",
  "tests fix the seed; two draws falling into the same class in a later branch are not sampled",
  ["phenum/tree.py"], [("guess_and_check_brancher", "phenum/tree.py:546")], "return value of guess_and_check_brancher")
p("C13", "All allowed compositions of a supercell, each once",
  "For a supercell size, a number of species and optional concentration ranges, the list of compositions contains every "
  "way of dividing the sites among the species that respects the ranges, and nothing else and nothing twice.",
  ["inputs"], "all sizes, numbers of species, numbers of basis atoms and concentration ranges",
  "tests compare a few stored lists",
  ["phenum/symmetry.py"], [("get_concs_for_size", "phenum/symmetry.py:11")], "return value of get_concs_for_size")
p("C14", "Distributing a sample over the structures takes exactly what was asked",
  "When a number of structures is to be drawn, the distribution over supercell sizes, shapes and concentrations adds up "
  "to exactly that number (or to all structures there are, if fewer) and never takes more from an entry than it has. "
  "Without a number, every entry gets all its structures; a restriction to certain shapes or concentrations keeps "
  "exactly those.",
  ["inputs", "schedules"], "all tables of available structures, all requested numbers, all restrictions and random draws",
  "tests check a few tables and seeds; rounding remainders and the limits of small entries depend on the numbers",
  ["phenum/structures.py"], [("_distribute", "phenum/structures.py:37"), ("_distribution", "phenum/structures.py:176"),
                             ("_distribution_summary", "phenum/structures.py:265"), ("make_enum_in", "phenum/structures.py:399")],
  "return values and the enum.in written")
p("C15", "A listed structure is turned into the right atoms in space",
  "Converting a listed structure to real space gives a cell spanning exactly the supercell's lattice (also when it is "
  "reduced) and exactly one atom on every site of the supercell: positions are the parent's atoms plus lattice "
  "translations, no two equal modulo the supercell, with the species at each position given by the labelling under the "
  "group indexing used in the enumeration.",
  ["inputs"], "all parent lattices, supercells, Smith transforms and labelings",
  "tests compare some stored structures",
  ["phenum/vector_utils.py"], [("map_enumStr_to_real_space", "phenum/vector_utils.py:3")], "return value")
p("C16", "Cell reduction keeps the lattice and gives shortest vectors",
  "Reducing a cell returns three vectors that span exactly the same lattice and satisfy the Minkowski conditions: each "
  "vector is the shortest that completes the previous ones to a basis, up to the tolerance. The reduction terminates for "
  "every non-degenerate cell whose vectors are not thousands of times longer than the reduced ones, and the cell it gives "
  "is right-handed.",
  ["inputs"], "all non-degenerate cells",
  "tests reduce about fifteen stored cells; the iteration's path depends on the vectors",
  ["phenum/vector_utils.py"], [("_minkowski_reduce_basis", "phenum/vector_utils.py:163"), ("_reduce_C_in_ABC", "phenum/vector_utils.py:289"),
                               ("_gaussian_reduce_two_vectors", "phenum/vector_utils.py:379"),
                               ("_minkowski_conditions_check", "phenum/vector_utils.py:220")], "return value")
p("C17", "POSCAR and MTP files describe the listed structure",
  "The POSCAR written for a listed structure contains the supercell's lattice vectors, the right number of atoms of "
  "each species and a position for every atom that agrees, modulo the cell, with the structure, displaced atoms being "
  "moved by the requested amplitude along their direction. The MTP configuration file describes the same atoms, types "
  "and cell in Cartesian coordinates.",
  ["inputs"], "all listed structures, lattices, species lists, displacement amplitudes and output options",
  "tests compare stored files of some structures",
  ["phenum/io_utils.py", "phenum/phenumStr.py"], [("write_POSCAR", "phenum/io_utils.py:330"), ("write_config", "phenum/io_utils.py:404"),
                                                  ("_make_structures", "phenum/phenumStr.py:19")], "the files written")
p("C18", "Enumeration files are read back as they were written",
  "What is written to the enumeration's output file (supercell matrices, transforms, labelings, displacement "
  "strings, indices) is what is read back from it for every structure selected, and the input files for lattice, groups "
  "and per-cell requests are read with the values they contain.",
  ["inputs"], "all structure lists, matrices, labelings, selections",
  "tests read a few stored files",
  ["phenum/io_utils.py", "phenum/enumeration.py"], [("read_enum_out", "phenum/io_utils.py:228"), ("write_enum", "phenum/io_utils.py:101"),
                                                    ("read_lattice", "phenum/io_utils.py:23"), ("read_enum", "phenum/io_utils.py:77"),
                                                    ("create_labeling", "phenum/io_utils.py:205")], "files and return values")
p("C19", "The lattice parameter follows Vegard's law for any composition",
  "The lattice parameter written for a structure is the concentration-weighted mean of the elements' lattice parameters "
  "for that cell, whatever the numbers of atoms; species with no atoms do not contribute and are left out of the title "
  "when zeros are removed. Each element's lattice parameter follows from its tabulated volume per atom and the cell.",
  ["inputs"], "all species lists, concentrations and lattices",
  "tests check a few alloys",
  ["phenum/element_data.py"], [("get_lattice_parameter", "phenum/element_data.py:34"), ("get_lat_param_element", "phenum/element_data.py:17")],
  "return value")
p("C20", "Generated groups and full matrices are complete",
  "Combining translations with rotations gives every product of a translation and a rotation, each exactly once. The group "
  "generated from these products, or from a list of permutations numbered from zero or from one, is closed under "
  "composition, contains every generator, nothing that is not a product of generators, and no element twice, for any number "
  "of generators, one included. The full matrix of a supercell has the entries of its short form.",
  ["inputs"], "all sets of generating permutations of sites and directions",
  "tests use a few generators",
  ["phenum/grouptheory.py", "phenum/polyaburnside.py"], [("a_group", "phenum/grouptheory.py:781"), ("a_group_gen", "phenum/grouptheory.py:807"),
                                                         ("group", "phenum/polyaburnside.py:349"),
                                                         ("get_full_HNF", "phenum/grouptheory.py:924")], "return values")
p("C21", "Plots of the supercells show the listed shapes and their atoms",
  "For every supercell in the file there is one figure, saved under a name of its own, showing an atom at every site of the "
  "supercell, modulo its lattice, and nothing else; the plot of the shapes draws the twelve edges of a cell that spans the "
  "supercell's lattice, with the atoms inside of it.",
  ["inputs"], "all enumeration files, lattices and bases", "the tests only check that the plotting code does not raise",
  ["phenum/visualize.py"], [("HNF_shapes", "phenum/visualize.py:14"), ("HNF_atoms", "phenum/visualize.py:107"),
                            ("_plot_HNFs", "phenum/enumeration.py:6")], "the figures")
p("C22", "A full enumeration lists every derivative structure of the crystal exactly once",
  "Running the program from lattice.in to enum.out lists, for every supercell size asked for and every composition allowed, "
  "each derivative structure of the crystal exactly once up to the crystal's symmetry: every decoration of any supercell "
  "of the size is equivalent to exactly one listed structure, read in the coordinates of the listed crystal; none listed "
  "has a smaller cell unless superperiodic structures are kept. The predicted numbers in polya.out count the inequivalent "
  "decorations of one supercell of each kind. All of it is the same wherever the atoms of the basis are given, in or "
  "outside of the unit cell.",
  ["inputs"], "all lattices, bases, sizes, numbers of species, concentration ranges and displacement fractions",
  "tests compare the numbers or files of a few crystals, stage by stage",
  ["phenum/enumeration.py", "phenum/HNFs.py", "phenum/grouptheory.py", "phenum/phonons.py", "phenum/tree.py"],
  [("_script_enum", "phenum/enumeration.py:249"), ("_enum_out", "phenum/enumeration.py:124"), ("_polya_out", "phenum/enumeration.py:52"),
   ("_enum_in", "phenum/enumeration.py:18")],
  "the files written")

p("C23", "The same seed gives the same structures",
  "For the same input files and the same seed (any whole number, 0 included) the requests drawn and the structures enumerated "
  "are the same in every run, whatever random numbers were drawn before, in whatever order the folder lists its files, and "
  "whether progress is reported or not.",
  ["inputs", "histories"], "all seeds, random sequences, earlier draws, orders of the folder's files, input files",
  "tests run with a fixed seed in one folder, without progress reports",
  ["phenum/enumeration.py", "phenum/structures.py", "phenum/phonons.py", "phenum/tree.py"],
  [("_enum_out", "phenum/enumeration.py:124"), ("_enum_in", "phenum/enumeration.py:18"), ("make_enum_in", "phenum/structures.py:401"),
   ("_distribute", "phenum/structures.py:37"), ("enum_sys", "phenum/phonons.py:376")],
  "the files written (without the date in the title)")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
