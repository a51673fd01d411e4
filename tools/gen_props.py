#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit; the jsonl is the deliverable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

# ---------------------------------------------------------------- vis
p("V01", "vis never hides a visible cluster",
  "Whenever a straight line can be drawn from a point of one leaf to a point of another through the openings of the portal file, the visibility data written by vis marks the second leaf visible from the first, at every -level and in -fast mode; every leaf sees itself. A leaf that cannot be reached through any chain of portals is never marked visible. A -visdist limit only ever removes leaves that are farther away than the limit.",
  ["inputs", "configurations"], "every portal graph, every test level, fast mode, visdist on/off",
  "tests/test_vis.cc runs one winding clip and one map's ambient levels; soundness of separator clipping is a statement about every geometry.",
  ["vis/vis.cc", "vis/flow.cc", "common/prtfile.cc"],
  [("BasePortalVis / RecursiveLeafFlow / ClipToSeparators", "vis/flow.cc"), ("ClusterFlow", "vis/vis.cc")],
  ["visdata lump and leaf visofs of the .bsp vis rewrites"])
p("V02", "vis results do not depend on the thread schedule",
  "Under every interleaving of the worker threads vis terminates without error and writes a visibility set that contains every line-of-sight visible leaf and nothing that no chain of portals reaches. No lock is leaked, taken twice, or released by a thread that does not hold it.",
  ["schedules"], "every interleaving of two and three workers at lock operations and conflicting memory accesses, up to a preemption bound",
  "tests run one free schedule on tiny inputs, and an unlucky interleaving cannot be provoked by a test.",
  ["vis/vis.cc", "vis/flow.cc"],
  [("portal_mutex, GetNextPortal, PortalCompleted, UpdateMightsee", "vis/vis.cc"), ("reuse of finished portals' visbits", "vis/flow.cc")],
  ["visdata of the written .bsp"],
  state=[("visportal_t::status", "none / working / done, read without the lock by other workers", "vis/vis.cc"), ("visportal_t::mightsee, nummightsee", "coarse set narrowed by finished neighbours", "vis/vis.cc")])
p("V03", "vis survives being killed at any point",
  "However often a vis run is killed, at any write to its progress file and with any torn or missing tail of that write, the next run of the same command completes and writes visibility data that still contains everything visible and nothing beyond the coarse flood. Work recorded as finished is recovered exactly; a progress file that is incomplete or belongs to another map is never trusted.",
  ["crash_points", "histories"], "every system-call boundary of the progress-file update, every byte-length torn tail, followed by a resumed run",
  "no test kills vis; crash consistency ranges over all crash points and torn writes.",
  ["vis/state.cc", "vis/vis.cc"],
  [("SaveVisState writes .vi0 and renames; LoadVisState validates header", "vis/state.cc")],
  ["visdata after resume", "the .vis/.vi0 files"])
p("V04", "potentially hearable set is the closure of the PVS",
  "For Quake 2 maps, a cluster's hearable set contains exactly the clusters that are visible from some cluster it can see, for every number of clusters. It always contains the visible set.",
  ["inputs"], "every cluster count and every visibility relation",
  "tests never look at the PHS; the row arithmetic depends on the number of clusters.",
  ["vis/soundpvs.cc"], [("CalcPHS", "vis/soundpvs.cc")], ["bitofs[..][PHS] rows of the visibility lump"])
p("V05", "visibility row compression is lossless and bounded",
  "Decompressing a compressed visibility row gives back exactly the original bytes for every row and every row length, and the compressed form never outgrows its buffer. Decompressing damaged data is reported as an error or yields zeroes, and never reads or writes outside the row.",
  ["inputs"], "every row up to a length over the byte classes the codec distinguishes; every compressed byte string up to a length",
  "tests hold no codec test; run lengths around 255 and row ends are corner cases of all inputs.",
  ["common/bsputils.cc", "vis/vis.cc", "vis/state.cc"], [("CompressRow, DecompressRow, CompressBits", "vis/vis.cc, common/bsputils.cc, vis/state.cc")], ["returned rows"])
p("V06", "vis maps portal-file clusters onto the BSP's own leaves",
  "For each portal file flavour (PRT1, PRT2, PRT1-AM) the row written for a leaf marks exactly the leaves that belong to visible clusters, whatever the assignment of leaves to clusters; leaves of one cluster share one row. A portal file that is malformed or names leaves the map does not have is refused and the map left untouched.",
  ["inputs"], "every assignment of up to a handful of leaves to clusters and every format",
  "tests use only compiler-generated portal files with the identity mapping.",
  ["vis/vis.cc", "common/prtfile.cc", "common/bsputils.cc"], [("ClusterFlow / DumpLeafs expand clusters to leafs", "vis/vis.cc"), ("LoadPrtFile", "common/prtfile.cc")], ["visdata lump", "leaf visofs", "error exit"])
p("V07", "ambient sound levels follow visibility",
  "In a Quake map the level a leaf gets for an ambient sound (sky, water, slime or lava textures; slime counts as water) is full if some leaf visible from it has a face with such a texture, and zero otherwise. Each -noambient option silences exactly its kind.",
  ["inputs", "configurations"], "every placement of ambient textures on a few leaves, every option combination, with and without clusters", "one map's levels are tested.",
  ["vis/soundpvs.cc"], [("CalcAmbientSounds", "vis/soundpvs.cc")], ["ambient levels of the leaves"])
# ---------------------------------------------------------------- bsp file
p("B01", "writing and reading a BSP file is the identity",
  "For every supported BSP format, a map held in memory and written to disk reads back with every lump equal, for every field value the format can represent, including its extreme values and empty lumps; reading and writing a file again gives the same bytes. The version written is the version reported on load.",
  ["inputs", "configurations"], "every format times every field of every lump at its boundary values",
  "tests load a few maps; nobody compares every field of every format at its extremes.",
  ["common/bspfile.cc", "common/bspfile_q1.cc", "common/bspfile_q2.cc", "common/bspfile_generic.cc"],
  [("LoadBSPFile / WriteBSPFile and the per-struct stream_read / stream_write", "common/bspfile.cc")], ["bytes of the file", "fields of the loaded map"])
p("B02", "BSP format conversion is lossless or refused",
  "Converting a map between the formats of one game keeps every lump's meaning, and converting it there and back gives the original map. If some value does not fit in the target format, the conversion fails with an error and never stores a truncated or wrapped value.",
  ["inputs", "configurations"], "every pair of formats, every field, values inside, at and just beyond the target's range",
  "tests convert only maps that fit; range violations are a property of all values.",
  ["common/bspfile.cc", "common/bspfile_generic.cc", "common/numeric_cast.hh", "common/bspfile_q1.cc", "common/bspfile_q2.cc"],
  [("ConvertBSPFormat, numeric_cast throwing overflow", "common/bspfile.cc")], ["result of ConvertBSPFormat", "loaded map"])
p("B03", "extension (BSPX) lumps survive rewriting",
  "Every extension lump of a BSP file, whatever its name, size and order, is found again byte for byte after the file is loaded and written. A damaged extension directory is ignored or refused, never misread.",
  ["inputs"], "every combination of lump names, sizes and orders up to a bound; every damaged directory field",
  "tests have at most one BSPX lump of one kind.", ["common/bspfile.cc", "common/bspxfile.cc"],
  [("bspx_t::parse / bspfile bspx writing", "common/bspfile.cc")], ["BSPX entries of the reloaded file"])
p("B04", "damaged BSP files never cause undefined behaviour",
  "Loading any damaged BSP file - truncated anywhere, with any lump offset or length replaced - either fails with a clean error or yields a map; it never reads outside the file, writes outside a buffer, crashes or hangs.",
  ["inputs"], "every truncation point and every header field replaced by each boundary value",
  "tests only load good files.", ["common/bspfile.cc", "common/bspfile_generic.cc"], [("lump reading bounds checks", "common/bspfile.cc")], ["error or loaded map"])
# ---------------------------------------------------------------- text formats
p("T01", "entity lump text round-trips",
  "Parsing the text written for a list of entities gives the same entities with the same keys, values and key order; assigning an existing key replaces its value in place, and keys are told apart by exact spelling. Any text either parses to the entities it spells or is refused, and parsing never reads outside the text.",
  ["inputs", "histories"], "every short sequence of set/remove/rename operations over colliding keys, and every short token sequence",
  "tests check a few literal entities.", ["common/entdata.cc", "common/parser.cc"], [("entdict_t, EntData_Parse, EntData_Write", "common/entdata.cc")], ["entity list", "entity string"])
p("T02", "the tokenizer reads every script as its grammar says",
  "For every input text, the tokens produced - words, quoted strings, comments, line tracking, look-ahead, undo - are those of the Quake script grammar, and reading never goes outside the text. Pushing a parser state and popping it restores reading exactly.",
  ["inputs", "histories"], "every text up to a length over the significant characters, times every flag combination and peek/undo schedule",
  "tests cover a handful of strings.", ["common/parser.cc"], [("parser_t::parse_token", "common/parser.cc")], ["token stream"])
p("T03", "map files keep their geometry through load, convert and save",
  "Loading a .map (standard, QuArK, Valve 220, Quake 2 surface fields) and saving it gives a .map that loads to the same entities, brush planes, texture names, flags and texture projection; converting between notations keeps every brush plane, and the texture coordinate of every point of every face wherever the target notation can express it. Damaged or unsupported text is refused and never read outside its bounds.",
  ["inputs", "configurations"], "every face plane orientation class times texture parameters from a lattice times each pair of notations",
  "tests convert two or three files and look at a few numbers.", ["common/mapfile.cc"], [("brush_side_t parse/write, convert_to", "common/mapfile.cc")], ["reloaded map file"])
p("T04", "settings obey precedence and never mix up options",
  "A single-valued setting's effective value is decided by the highest-priority source that set it - default, then map, then command line in the documented order - independent of the order in which sources are applied; resetting restores the default, copying and changing one container never changes another. Every spelling that the parser accepts sets exactly the named option and consumes exactly its arguments.",
  ["inputs", "histories"], "every sequence of set/parse/reset/copy operations up to a depth over each setting type and source",
  "tests check single sequences.", ["common/settings.cc", "include/common/settings.hh"], [("setting_base::change_source, setting_container", "common/settings.cc")], ["values read back"])
# ---------------------------------------------------------------- qbsp
p("Q01", "BSP contents equal the map's solid geometry",
  "For every point not on a brush face, the contents found by walking the compiled BSP tree are those the map's brushes define there: the brush of highest priority that contains it, or empty; points that cannot be reached from any entity in a sealed map may become solid. This holds for the Quake, Hexen II and Half-Life formats and every combination of compile options.",
  ["inputs", "configurations"], "every arrangement of a few brushes (types, positions) on a lattice",
  "tests look at individual points of individual maps.", ["qbsp/brushbsp.cc", "qbsp/csg.cc", "qbsp/tree.cc", "qbsp/writebsp.cc", "common/bspfile_q1.cc"], [("BrushBSP, ChopBrushes, contents flags", "qbsp/")], ["tree walk of the written .bsp"])
p("Q02", "clip hulls are the map expanded by the player box",
  "For Quake maps a point is blocked in clip hull 1 or 2 exactly if the player box of that hull placed there touches solid brush volume (clip brushes included), and free otherwise; unreachable space may be filled.",
  ["inputs"], "every arrangement of axial brushes on a lattice, every hull",
  "tests probe single points.", ["qbsp/brush.cc", "qbsp/map.cc", "qbsp/writebsp.cc"], [("hull expansion", "qbsp/map.cc")], ["clipnode walk of the written .bsp"])
p("Q03", "leaks are reported exactly when there is a leak",
  "A map in which some entity can reach the outside without crossing solid or sealing brushes is reported as leaking, with a path file whose polyline starts at an entity, never passes through structural solid and ends outside, and no portal file is left for vis; otherwise no leak is reported, every entity-reachable volume is kept and the void is filled.",
  ["inputs"], "every subset of removed wall segments and entity positions of a lattice room",
  "tests contain a few leaky and sealed maps.", ["qbsp/outside.cc", "qbsp/qbsp.cc"], [("FillOutside, leak line", "qbsp/outside.cc")], [".prt / .pts files", "leaf contents"])
p("Q04", "drawn faces tile exactly the visible brush surfaces",
  "Every point of the boundary between reachable space and solid brushes is covered by exactly one drawn face, facing into the space and carrying the texture of the brush side there; no face lies elsewhere. Faces are planar, convex and consistently wound, and between faces in front of solid or sky no corner of one lies in the interior of another's edge (unless -tjunc none).",
  ["inputs", "configurations"], "every arrangement of a few brushes on a lattice",
  "tests count faces on single maps.", ["qbsp/faces.cc", "qbsp/merge.cc", "qbsp/tjunc.cc", "qbsp/writebsp.cc"], [("MakeFaces, MergeFaceList, TJunc", "qbsp/")], ["faces of the written .bsp"])
p("Q06", "the portal file connects exactly the touching open leaves",
  "In a sealed map two clusters share portals in the portal file exactly if open space passes from one to the other, the portals cover exactly the common opening and face as recorded, and every open leaf belongs to exactly one cluster; detail brushes never split clusters.",
  ["inputs", "configurations"], "every arrangement of a few structural and detail brushes on a lattice",
  "tests count portals on single maps.", ["qbsp/portals.cc", "qbsp/prtfile.cc"], [("MakeTreePortals, WritePortalFile", "qbsp/")], [".prt file", "leaf clusters"])
p("Q07", "brush entities become their own numbered models",
  "Each brush entity gets exactly one model, its model key names that model, the model's bounds are those of its brushes (clip brushes included), and its faces, contents and hulls are those of its own brushes only; entity order and all other keys are kept. func_group and func_detail brushes belong to the world. Updating only the entities (-onlyents) of an unchanged map changes nothing.",
  ["inputs"], "every sequence of up to a few entities of each kind",
  "tests inspect single maps.", ["qbsp/map.cc", "qbsp/qbsp.cc", "qbsp/writebsp.cc"], [("ProcessEntity, model numbering", "qbsp/qbsp.cc")], ["models and entity lumps"])
p("Q08", "qbsp output does not depend on the thread schedule",
  "For every order and interleaving of the parallel tasks of qbsp the compile succeeds and the .bsp, portal file and leak trail written are byte for byte the same as those of a sequential run; no interleaving crashes, hangs or deadlocks.",
  ["schedules"], "every order of sibling tasks up to a deviation bound and every conflicting access pair",
  "tests run one schedule.", ["qbsp/brushbsp.cc", "qbsp/tree.cc", "qbsp/portals.cc", "qbsp/tjunc.cc", "qbsp/csg.cc"], [("task groups and parallel loops", "qbsp/")], [".bsp and .prt bytes"])
p("Q09", "texture projection in the BSP equals the map's",
  "For every face of the compiled map the texture coordinates of each of its points are those the map's brush face defines there, in each notation (standard, Valve 220, brush primitives, QuArK, with and without Quake II surface fields), with rotation, scale, shift, for moved or rotated brush entities and misc_external_map prefabs, under -scale, and unchanged by -convert to another notation; Quake II faces keep their flags and value.",
  ["inputs"], "every plane orientation class times projection parameters from a lattice times notations", "tests check two or three faces.",
  ["qbsp/map.cc", "common/mapfile.cc"], [("texdef parsing", "qbsp/map.cc")], ["texinfo lump"])
p("Q10", "contents conversions keep their meaning",
  "Converting contents between a game's native numbering and the common representation and back gives the same native value for every value; combining contents for clusters and leaves is the union the game rules define - commutative, and never weaker than a member - and visibility, sealing and opacity questions give consistent answers.",
  ["inputs", "configurations"], "every native contents value or bit combination for each game",
  "tests check a handful of values.", ["common/bspfile_q1.cc", "common/bspfile_q2.cc", "common/bspfile_common.cc"], [("gamedef_t contents functions", "common/bspfile_q1.cc")], ["returned contents"])
# ---------------------------------------------------------------- light
p("L01", "direct light reaches exactly the unoccluded samples",
  "For a point light with a given falloff a lightmap sample is lit with the documented amount if and only if the segment from light to sample crosses no shadow-casting surface and the surface faces the light; otherwise it gets none of that light.",
  ["inputs", "configurations"], "every light position and attenuation mode on a lattice, every blocker arrangement", "tests probe a few samples of a few maps.",
  ["light/ltface.cc", "light/entities.cc", "light/trace_embree.cc"], [("GetLightContrib, TestLight", "light/ltface.cc")], ["lightmap lump"])
p("L02", "light output does not depend on the thread schedule",
  "For every order and interleaving of light's parallel tasks the lightmaps, lightgrids and sidecar files written are the same.",
  ["schedules"], "every order of sibling tasks up to a deviation bound", "tests run one schedule.",
  ["light/light.cc", "light/ltface.cc", "light/write.cc", "light/phong.cc", "light/bounce.cc", "light/surflight.cc"], [("parallel_for over faces", "light/light.cc")], ["lighting lump bytes"])
p("L03", "lightmap storage of faces is in bounds and disjoint",
  "Every lit face's lightmap block, as an engine computes it from the face's texture extents and styles, lies inside the lighting data and does not overlap the block of another face; the coloured sidecar or extension data have exactly the matching layout, and grey values correspond to the colours.",
  ["inputs", "configurations"], "every combination of face sizes, styles, lightmap scale and output options on small maps", "tests look at single faces.",
  ["light/write.cc", "light/ltface.cc"], [("SaveLightmapSurface, GetFileSpace", "light/write.cc")], ["lighting lump, .lit, RGBLIGHTING, DECOUPLED_LM"])
p("L04", "the light grid octree reproduces every sample",
  "Looking up any grid point in the written light grid returns the sample computed for that point, or 'no sample' exactly where none was, for every grid size and occlusion pattern.",
  ["inputs"], "every occlusion pattern of small grids", "tests check one map.", ["light/lightgrid.cc"], [("octree building", "light/lightgrid.cc")], ["LIGHTGRID_OCTREE lump"])
# ---------------------------------------------------------------- files, images
p("F01", "file lookup honours the documented search order",
  "A file asked for by name is found in the same place for every combination of directories, archives and options: a path that names an archive directly first, then archives (the one added last first), then directories (the one added last first), then the loose path; with -filepriority loose the loose path, the directories and the archives in this order. Names are compared as each archive type requires, the bytes returned are exactly those stored, and missing files are reported missing.",
  ["inputs", "histories"], "every sequence of adding up to a few locations that hold colliding names", "tests read only plain directories.",
  ["common/fs.cc"], [("fs::addArchive, fs::where, fs::load", "common/fs.cc")], ["bytes and location returned"])
p("F02", "image decoding gives exactly the pixels stored",
  "Each supported texture format (WAL, miptex in BSP and WAD, TGA, PCX/LMP palettes) decodes to the width, height and pixel colours its specification defines, for every size, depth and row order; damaged images are refused without reading outside the data.",
  ["inputs"], "every small image in every variant; every truncation of each", "tests decode one PNG.", ["common/imglib.cc"], [("img::load_wal, load_mip, load_tga", "common/imglib.cc")], ["decoded texture"])
# ---------------------------------------------------------------- geometry
p("G01", "clipping a polygon partitions it",
  "Splitting any convex polygon by any plane gives a front part and a back part that lie on their sides, share the cut edge and together have the polygon's area; a polygon entirely on one side comes back whole. Points inside stay inside, winding order and planarity are kept.",
  ["inputs"], "every convex lattice polygon up to a size by every lattice plane", "tests clip one or two polygons.", ["include/common/polylib.hh"], [("winding_base_t::clip", "include/common/polylib.hh")], ["returned windings"])
# ---------------------------------------------------------------- tools
p("U01", "decompiled maps compile back to the same world",
  "The map written by the decompiler for a compiled map has, for each brush model, brushes that cover exactly the non-empty volumes of the draw hull or of the chosen clip hull (in Quake II exactly the brushes of the brush lump), in the world where the model's origin puts them, and the same entities and keys apart from model numbers and what an origin brush or area portal brush stands for. Compiling it again gives the same contents everywhere and, in full mode, faces with the same texture, flags and texture coordinates (except trigger models, which get the trigger texture).",
  ["inputs", "configurations"], "every arrangement of a few brushes on a lattice", "tests decompile one or two maps.", ["common/decompile.cc"], [("DecompileBSP", "common/decompile.cc")], ["written .map"])
p("U02", "bsputil edits only what it is asked to edit",
  "Each bsputil operation (replacing or extracting entities, extracting, inserting and removing extension lumps, extracting and replacing textures, setting a texinfo, converting, the read-only queries) changes exactly the named part of the file or writes exactly the named output: everything else equals what was there before. What is extracted and put back restores the file. An operation that is refused leaves the file as it was, and several operations in one command act like the same operations one after the other. --scale moves the trees, faces, texture and lightmap coordinates and bounds of the map together, for every factor and mirroring.",
  ["inputs", "histories"], "every sequence of operations up to a depth on small files of every format, every scale factor of a set", "no test runs bsputil.", ["bsputil/bsputil.cc"],
  [("bsputil_main", "bsputil/bsputil.cc"), ("ExportWad / ReplaceTexturesFromWad", "bsputil/bsputil.cc")], ["the files in the directory after the run"])
p("U03", "maputil scripts see and change exactly the map they loaded",
  "A script sees the entities, brushes, faces, planes and texture vectors of the loaded map in the documented layout; a script that commits without changes leaves an equivalent map, each committed edit changes exactly the addressed entity, brush or face, and later commands (queries, conversion, saving) work on the committed map. Without a commit nothing changes.",
  ["programs", "inputs"], "every short sequence of script operations", "no test runs a script.", ["maputil/maputil.cc"], [("Lua bindings", "maputil/maputil.cc")], ["saved .map"])
p("U04", "bspinfo's report agrees with the file",
  "The JSON report lists every element of every lump it covers with the values stored in the file, for every format (areas and area portals are not part of it), and producing it never changes the file.",
  ["inputs", "configurations"], "every format and every small lump population", "no test reads the report.", ["common/bspinfo.cc", "bspinfo/main.cc"], [("serialize_bsp", "common/bspinfo.cc")], [".bsp.json"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
