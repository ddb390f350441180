"""Writes properties.jsonl (one place to edit the statements)."""
import json, os

P = []


def add(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


add("C01", "Every traced ray yields one complete, well-formed history",
    "For every scene, light set, seed, emission method and budget, both tracers return exactly one history per ray "
    "(lights taking turns), which starts with GENERATE, ends with its only terminal event (EXIT, NONRADIATIVE, REACT or KILL), "
    "and in which ABSORB is followed by exactly one of EMIT, SCATTER, NONRADIATIVE or REACT. "
    "Along a history the travelled length grows by exactly the distance between consecutive positions, the duration never decreases, "
    "only EMIT changes the wavelength, directions stay unit vectors, and the source label is the light or the component that last emitted or scattered the ray. "
    "KILL ends a history exactly when a step, path-length or event budget is used up, and never otherwise.",
    ["inputs", "configurations", "histories"],
    "all scenes of the documented subset, all budgets (steps, path length, events), all seeds, both tracers",
    "The tests follow a handful of rays in one or two fixed scenes and look at counts; grammar, bookkeeping and budget interplay are quantified over scenes and histories.",
    ["pvtrace/algorithm/photon_tracer.py", "pvtrace/engine/_kernel.pyx", "pvtrace/engine/api.py", "pvtrace/light/ray.py"],
    [("step_forward loop", "pvtrace/algorithm/photon_tracer.py: step_forward"), ("trace_one", "pvtrace/engine/_kernel.pyx"),
     ("history decoding", "pvtrace/engine/api.py: EngineResult.histories")],
    ["photon_tracer.step_forward", "photon_tracer.follow", "EngineResult.histories()", "EngineResult.event_counts()"])

add("C02", "Events happen where the geometry says, in the right volume",
    "In every history of either tracer each event names the node whose volume the ray is really in (container), and each surface event lies on "
    "the boundary of the node it names (hit) and gives the volume on the other side (adjacent), for any nesting, rotation, grouping or touching of nodes. "
    "Between consecutive events the ray travels in a straight line along its direction without crossing any boundary, "
    "and EXIT happens on the boundary of the root node.",
    ["inputs", "histories"],
    "all arrangements of boxes, spheres, cylinders (and meshes for the Python tracer), nested to any depth, any pose, any ray",
    "Tests place one or two unrotated boxes or spheres; missed, phantom or mislabelled boundaries need particular poses, nestings and rays.",
    ["pvtrace/algorithm/photon_tracer.py", "pvtrace/engine/_kernel.pyx", "pvtrace/scene/scene.py", "pvtrace/scene/node.py", "pvtrace/geometry"],
    [("next_hit / find_container / find_adjacent", "pvtrace/algorithm/photon_tracer.py"), ("next_hit", "pvtrace/engine/_kernel.pyx"),
     ("intersections to root frame", "pvtrace/scene/node.py: intersections")],
    ["histories of both tracers"])

add("C03", "Surfaces obey the law of reflection, Snell's law and Fresnel",
    "At every surface event of either tracer the reported normal is the outward unit normal of the hit node at that point in the world frame, "
    "a reflected ray obeys the law of reflection, and a transmitted ray obeys Snell's law for the refractive indices on the two sides. "
    "Reflection happens with the unpolarised Fresnel probability of that incidence, always beyond the critical angle, never on a null surface, "
    "and with exactly the probability and directions a custom surface delegate returns.",
    ["inputs", "histories"],
    "all index pairs, incidence angles, node poses and nestings, surface delegates; probability over all rays",
    "Tests check single angles of incidence on single faces; the law covers all angles, both crossing senses, poses, and a probability that a handful of rays cannot measure.",
    ["pvtrace/material/surface.py", "pvtrace/material/utils.py", "pvtrace/engine/_kernel.pyx", "pvtrace/algorithm/photon_tracer.py"],
    [("FresnelSurfaceDelegate", "pvtrace/material/surface.py"), ("fresnel_reflectivity, specular_reflection, fresnel_refraction", "pvtrace/material/utils.py and kernel")],
    ["REFLECT and TRANSMIT events and their metadata", "material.utils functions"])

add("C04", "Absorption follows Beer-Lambert and picks components by their share",
    "Inside a material the free path of a ray is exponential with the sum of the attenuation coefficients of all components at the ray's current wavelength, whatever boundaries it crosses and however often it was re-emitted. "
    "The component that absorbs is drawn in proportion to its coefficient; it then emits or scatters with exactly its quantum yield, otherwise the ray ends as NONRADIATIVE (REACT for reactors), and only a component of the container ever appears in its events. "
    "Delays after absorption follow the exponential law of the component's lifetimes and are zero without one.",
    ["inputs", "histories"],
    "all component sets, spectra (constant, even and uneven spacing), wavelengths, geometries",
    "Tests use one component and a fixed wavelength with loose tolerances; mixtures, uneven spectra, re-emission and nested boundaries are never sampled.",
    ["pvtrace/material/material.py", "pvtrace/material/component.py", "pvtrace/engine/_kernel.pyx", "pvtrace/algorithm/photon_tracer.py"],
    [("penetration depth, component choice", "pvtrace/material/material.py"), ("is_radiative, lifetimes", "pvtrace/material/component.py")],
    ["ABSORB, EMIT, SCATTER, NONRADIATIVE, REACT events"])

add("C05", "Re-emitted light follows the emission spectrum and phase function",
    "A luminophore emits at wavelengths distributed as its emission spectrum truncated by the chosen method (full: not at all; redshift: not below the absorbed wavelength; kT: not more than 1.5 kT above the absorbed energy), "
    "and a scatterer keeps the wavelength. "
    "Directions of emitted and scattered rays follow the component's phase function in the local frame of the container (isotropic by default), in both tracers and for every container pose.",
    ["inputs", "histories"],
    "all emission spectra, absorbed wavelengths, methods, phase functions, container poses",
    "Tests look at a few draws of one spectrum; distribution laws and dependence on pose and method need many draws over many spectra.",
    ["pvtrace/material/component.py", "pvtrace/material/utils.py", "pvtrace/engine/_kernel.pyx", "pvtrace/engine/compiler.py"],
    [("Luminophore.emit", "pvtrace/material/component.py"), ("emission sampling", "pvtrace/engine/_kernel.pyx")],
    ["EMIT and SCATTER events", "Luminophore.emit, Scatterer.emit"])

add("C06", "The compiled engine and the Python tracer are interchangeable",
    "For every scene the engine accepts, the two tracers produce the same statistical distribution of outcomes: "
    "event kinds, final node and event, interactions per ray, path length, duration, wavelength, and every recorder quantity, "
    "for every emission method and step budget.",
    ["inputs", "configurations", "programs"],
    "all scenes of the compiled subset, emission methods and budgets, as distributions over rays",
    "The tests compare counts on three hand-made scenes; equivalence is a relation over all scenes and over distributions.",
    ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/compiler.py", "pvtrace/engine/emit.py", "pvtrace/algorithm/photon_tracer.py", "pvtrace/engine/tally.py"],
    [("duplicate implementation of the tracer", "pvtrace/engine/_kernel.pyx vs pvtrace/algorithm/photon_tracer.py")],
    ["histories and recorder tallies from both"])

add("C07", "Engine runs are reproducible, and independent of workers and logging",
    "With a given seed and initial rays every engine result is bit-for-bit the same on every run and for any number of workers, and distinct rays use distinct random streams. "
    "record_every only selects which histories are kept (every n-th ray, in order) and the event budget only truncates them: neither changes what is kept of a history or the trace of any other ray. "
    "Streaming in bundles traces ray number i exactly as a single run with the same seed would from the same initial ray, reports every ray once, and its summed tallies are those of the single run.",
    ["schedules", "configurations", "inputs"],
    "all worker counts (thread schedules), seeds, ray counts, logging strides, bundle sizes, scenes",
    "Tests compare one scene at two worker counts; the claim covers all scenes, counts, strides and their combinations under threading.",
    ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/api.py"],
    [("per-ray seeding, prange, per-worker tallies", "pvtrace/engine/_kernel.pyx: trace_bundle"), ("simulate_stream", "pvtrace/engine/api.py")],
    ["EngineResult.data, histories(), recorders", "simulate_stream"])

add("C08", "Recorders tally exactly the rays that interact as they select",
    "For every recorder, rays is the number of distinct rays and crossings the number of events that match its selector "
    "(entering, escaping, reflected, lost, reacted, killed or exit at its node, restricted to its facet normal if given), over every traced ray whatever the logging stride. "
    "Means, deviations, errors, histograms and heatmaps are those of the first matching event of each distinct ray (wavelength, incidence angle, duration, path length, position in the node's frame), values outside the range being left out. "
    "The native tallies and the tallies computed from histories (tally_histories) both equal this for every scene and recorder.",
    ["inputs", "histories", "configurations"],
    "all scenes, recorder sets, facets, ranges, properties, worker counts and strides",
    "Tests use one recorder set on a slab and compare totals within sampling error; exact agreement per recorder over all histories is never checked.",
    ["pvtrace/engine/recorder.py", "pvtrace/engine/tally.py", "pvtrace/engine/_kernel.pyx", "pvtrace/engine/api.py", "pvtrace/engine/compiler.py"],
    [("tally in kernel", "pvtrace/engine/_kernel.pyx"), ("tally_histories", "pvtrace/engine/tally.py")],
    ["EngineResult.recorders", "tally_histories"])

add("C09", "Scenes the engine cannot trace faithfully are rejected",
    "Compiling a scene either succeeds with a representation faithful to it or raises UnsupportedSceneError: a scene with a mesh, a custom surface, surface delegate, material, phase function, component, spectrum or geometry class, a histogram-sampled spectrum, a scaled or sheared solid, group or light node, "
    "a missing material, a root without geometry, more nodes or recorders than the engine holds, duplicate recorder names, a facet on a volume recorder, a recorder on a node without geometry or a non-recorder in a recorder list is always rejected, wherever in the scene it is. "
    "Compiling and simulating never change the scene.",
    ["inputs", "programs"],
    "all scenes with zero or more unsupported features placed anywhere",
    "Tests reject five single-feature scenes; features anywhere, in combination, and near-supported classes are not covered.",
    ["pvtrace/engine/compiler.py"],
    [("CompiledScene", "pvtrace/engine/compiler.py")],
    ["compile_scene", "engine.simulate"])

add("C10", "Geometry primitives answer ray and point queries exactly",
    "For every box, sphere, cylinder and mesh of any size and every ray, intersections() returns exactly the points where the forward ray crosses the surface, ordered along the ray, "
    "contains() is true exactly strictly inside and is_on_surface() is true for points on the surface and false for points off it. "
    "normal() is the outward unit normal there, is_entering() is true exactly for directions going inwards, and the material is the one last set.",
    ["inputs"],
    "all sizes, rays (any direction, origin inside, outside or on the surface), surface points away from edges",
    "Tests use unit shapes and axis-aligned rays.",
    ["pvtrace/geometry/box.py", "pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/mesh.py", "pvtrace/geometry/utils.py"],
    [("ray_z_cylinder, aabb_intersection, sphere quadratic", "pvtrace/geometry/utils.py")],
    ["Geometry methods"])

add("C11", "Scene-graph frames convert consistently and do not affect physics",
    "Converting points, vectors, rays and intersections between any two nodes equals composing the rigid transforms along the tree, in any order of moves, rotations and re-parenting: it round-trips, composes through any third node, and preserves lengths and angles. "
    "Node intersections in the scene are those of each geometry in its own frame, ordered by distance and only ahead of the ray. "
    "Describing the same arrangement with a different node tree, or moving the whole scene rigidly, gives the same traced physics.",
    ["inputs", "histories", "programs"],
    "all trees, all sequences of location, translate, rotate, look_at and re-parent operations, all points and rays",
    "Tests check two-node trees with single translations or right-angle rotations.",
    ["pvtrace/scene/node.py", "pvtrace/geometry/transformable.py", "pvtrace/geometry/transformations.py", "pvtrace/geometry/intersection.py", "pvtrace/scene/scene.py", "pvtrace/light/ray.py"],
    [("transformation_to", "pvtrace/scene/node.py"), ("pose updates", "pvtrace/geometry/transformable.py")],
    ["Node, Ray.representation, Intersection.to, Scene.intersections"])

add("C12", "Lights emit the rays their masks describe, in the frame of their node",
    "Every ray a light emits carries its name, starts with zero travelled length and duration, and has a position, unit direction and wavelength drawn from its masks (uniform over the rectangle, disc or cube; the named angular law; constant or spectrum), converted to the world by the light node's pose. "
    "Scene emission cycles through all lights in turn, giving each an equal share, and the vectorised emission of the engine gives the same distribution and order as the per-ray emission, including for custom callables.",
    ["inputs", "histories", "configurations"],
    "all masks, poses, numbers of lights and rays",
    "Tests emit a few rays from default lights; the laws and the two emission paths are only compared on one light.",
    ["pvtrace/light/light.py", "pvtrace/engine/emit.py", "pvtrace/scene/scene.py", "pvtrace/scene/node.py", "pvtrace/material/utils.py"],
    [("Light.emit and masks", "pvtrace/light/light.py"), ("emit_bundle", "pvtrace/engine/emit.py")],
    ["Light.emit, Scene.emit, engine.emit.emit_bundle"])

add("C13", "Spectra interpolate, sample and invert faithfully, or are refused",
    "A Distribution evaluates to linear interpolation of its data (constants everywhere), its cumulative lookup is the normalised integral, increasing from 0 to 1, and sampling is its inverse, so sampled values follow the density described by the data for any spacing; in histogram mode only the given values occur, in proportion to their weights. "
    "Data that is unsorted, mismatched, negative or non-finite raises an error on construction. "
    "Scalars and arrays give the same answers and the caller's arrays are never modified.",
    ["inputs"],
    "all valid data sets (even and uneven spacing, zeros, callables, constants) and probabilities; all kinds of invalid data",
    "Tests use a few fixed arrays.",
    ["pvtrace/material/distribution.py"],
    [("Distribution", "pvtrace/material/distribution.py")],
    ["Distribution call, lookup, sample"])

add("C14", "Scene.simulate returns every ray once, whatever the workers",
    "For any number of rays and worker processes Scene.simulate traces exactly that many rays and returns one complete history for each, or puts every event of every history on the queue in order, identified so that no two rays are confused. "
    "Workers use independent random sequences, so histories do not repeat; one worker with the same seed repeats the same histories, and a seed with several workers is refused. "
    "With end_rays only generation, absorption, kill, exit, and reflection from or transmission through node surfaces from outside or out of them are reported, and nothing else is changed.",
    ["inputs", "schedules", "configurations"],
    "all ray counts, worker counts (process schedules), scenes, queue and end-ray modes",
    "Tests run two or three fixed counts; remainders, more workers than rays, and scheduling of pool processes are not covered.",
    ["pvtrace/scene/scene.py"],
    [("simulate, do_simulation, do_simulation_add_to_queue, is_end_ray", "pvtrace/scene/scene.py")],
    ["Scene.simulate results and queue items"])

add("C15", "The database and its count, spectrum and time queries tell the truth",
    "The simulate command stores every reported event of every ray with its exact data, one throw id per ray. "
    "Each count, spectrum and time query (entering, escaping, reflected, lost, reacted, killed; by node, facet label, surface normal within tolerance, and source) answers about exactly the distinct rays whose stored history has such an event, in every output format, "
    "identically for full and end-ray databases, and treats any node, facet or source name as plain text.",
    ["inputs", "histories", "configurations"],
    "all stored histories, all query kinds and filters, all names",
    "Tests check that commands run and compare a few totals of one simulation.",
    ["pvtrace/cli/main.py", "pvtrace/cli/db.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py", "pvtrace/data/schema.sql"],
    [("SQL builders", "pvtrace/cli/db.py"), ("write_ray, write_event, monitor_queue", "pvtrace/cli/main.py")],
    ["CLI output", "sqlite database"])

add("C16", "Scene files parse to exactly the scene they describe, or are refused",
    "Every schema-valid scene file yields a scene with exactly the nodes, parents, placements, shapes, materials, components (types, coefficients, spectra, quantum yields, phase functions), lights (masks in their documented units) and recorders it declares, with documented defaults for what it leaves out. "
    "A file that breaks the schema or refers to an unknown component, node or file is refused with an error. "
    "Parsing never executes code from the file.",
    ["inputs", "programs"],
    "all scene documents, valid or not",
    "Tests parse three example files.",
    ["pvtrace/cli/parse.py", "pvtrace/cli/pvtrace-schema-scene-spec.json"],
    [("parse_v_1_0 and schema", "pvtrace/cli/parse.py")],
    ["pvtrace.cli.parse.parse"])

add("C17", "Studio edits keep document and scene in step and change nothing else",
    "After any sequence of document uploads and structured edits, the studio's document parses to its current scene and payload; each accepted edit makes exactly the change requested and keeps the rest of the document, comments included. "
    "A rejected edit or invalid document is answered with an error and leaves document and scene as they were. "
    "Saving writes exactly the current document, and uploads only ever write a .csv or .txt file beside it.",
    ["histories", "inputs", "programs"],
    "all sequences of edits, valid and invalid, on generated documents",
    "Tests apply single edits to one document.",
    ["pvtrace/studio/server.py", "pvtrace/cli/parse.py"],
    [("_patch, Studio.apply", "pvtrace/studio/server.py")],
    ["HTTP API of create_app"])

add("C18", "Studio streaming reports exactly the engine's totals",
    "A run over the websocket reports started, then after every bundle the number of rays traced and recorder totals that equal the tallies of all rays traced so far (those of one engine run with the same seed), then done, for every bundle size and ray count. "
    "Histogram descriptions match the recorders and their bins, and the sampled paths are prefix-free polylines of real histories, at most as many as asked. "
    "Stop ends the stream, and further runs start again from zero.",
    ["histories", "inputs", "schedules"],
    "all scenes, ray counts, bundle sizes, seeds and command sequences",
    "Tests stream one scene once.",
    ["pvtrace/studio/server.py", "pvtrace/engine/api.py"],
    [("websocket run", "pvtrace/studio/server.py")],
    ["/ws messages"])

add("C19", "The LSC device builds the scene it is asked for and counts its rays",
    "For every size and combination of lights, luminophores, absorbers, scatterers, solar-cell edges, back-surface mirrors and wavelengths, an LSC builds a scene with exactly those parts at the documented places and simulates it without error, repeatedly. "
    "Its spectra, counts and summary are those of the traced histories: every ray is counted once by its fate, the facet tallies are the rays crossing that facet, and fractions are consistent with the counts.",
    ["inputs", "histories", "configurations"],
    "all device configurations and repeated simulations",
    "One test builds a default device.",
    ["pvtrace/device/lsc.py"],
    [("LSC", "pvtrace/device/lsc.py")],
    ["LSC.simulate, spectrum, counts, summary"])

add("C20", "Phase functions and optical formulas are correct for all inputs",
    "isotropic, lambertian, cone and Henyey-Greenstein sampling return unit vectors with exactly the named angular law (uniform azimuth; the stated polar distribution and limits) for every parameter, including limits such as g near 0 or 1 and tiny cones. "
    "The Fresnel, reflection, refraction, Gaussian, Bose and simple absorption helper formulas equal their textbook definitions for every admissible argument.",
    ["inputs"],
    "all parameters and arguments",
    "Tests check norms or a mean for one parameter value.",
    ["pvtrace/material/utils.py"],
    [("phase functions and formulas", "pvtrace/material/utils.py")],
    ["pvtrace.material.utils"])

add("C21", "What is shown is the scene as it is and the rays as they went",
    "The renderer shows every solid of the scene except the root with its shape and size, at its pose in the world, whatever the tree, the names and the moves before a rendering. "
    "Rays, paths and histories are drawn as straight lines between their successive points in the colour of the wavelength they have there (the cited conversion; black outside 380-780 nm); "
    "a history's segment to the world node, and only it, is left out or drawn short as asked, and baubles mark the points of transmission when asked. "
    "At most max_histories histories stay on show, the newest, and what makes way or is removed by its identifiers disappears completely, nothing else with it. "
    "The same holds for the show and simulate commands given a viewer (every n-th ray, at most the number asked for) and for the LSC's show and simulate.",
    ["inputs", "histories"],
    "all scenes, histories, options and sequences of drawing, moving, removing",
    "Tests only call the renderer; nothing looks at what is shown.",
    ["pvtrace/scene/renderer.py", "pvtrace/light/utils.py", "pvtrace/cli/main.py"],
    [("what is drawn and what makes way", "pvtrace/scene/renderer.py"), ("colours", "pvtrace/light/utils.py"), ("rendering while simulating", "pvtrace/cli/main.py")],
    ["MeshcatRenderer", "pvtrace-cli show and simulate --zmq", "LSC.show"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
