"""writes properties.jsonl (the text lives here only to keep the lines readable)"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": w} for n, w in state],
                          "observe_at": [observe]}})


S = "Shallot.py"
p("C01", "Every disk of a grid explains the observed eclipse duration",
  "For every grid point whose parameters are defined, the projected disk is an ellipse, centred on the point's (dx, dy), whose edge passes through (-1/2, 0) and (+1/2, 0); the stored horizontal and vertical stretch describe that ellipse. Off the x axis every grid point is defined; on it, away from the origin, where no such ellipse exists, none is.",
  ["inputs", "configurations"], "every grid centre (dx, dy) and every stretch the grid may assign to it",
  "No test builds a grid at all; a finite grid of floats samples a measure-zero part of the (dx, dy, stretch) space.",
  [S], [("closed form of fx from fy", "Shallot.py:_determine_fx"), ("closed form of fy from fx", "Shallot.py:_determine_fy"),
        ("shear and circular radius", "Shallot.py:_determine_shear, _determine_circular_radius"),
        ("grid build", "Shallot.py:_build_grid, _interpolate_scale_values")],
  "the fx/fy/disk radius/inclination/tilt cubes of a constructed grid")
p("C02", "Disk radius, inclination and tilt describe the same ellipse as the stretches",
  "At every defined grid point the disk radius is the semi-major axis of the projected ellipse, the inclination is the angle in [0, 90] degrees whose cosine is the ratio of its axes, and the tilt is the direction of its major axis. Together with the centre they describe exactly the ellipse given by the stretches and the shear of that point.",
  ["inputs", "configurations"], "every centre, every positive pair of stretches",
  "No test evaluates the conversion; it needs real algebra over all stretches, including the two cases for which axis is the major one.",
  [S], [("vertex angles", "Shallot.py:_calculate_vertex_and_covertex_angles"),
        ("coordinates on the ellipse", "Shallot.py:_calculate_xy_from_parameteric_angle"),
        ("conversion", "Shallot.py:_determine_disk_parameters")],
  "the disk radius, inclination and tilt cubes of a constructed grid")
p("C03", "Extending a grid mirrors it into all four quadrants",
  "A grid that starts at the origin is extended so that for every point (dx, dy) the points (-dx, dy), (dx, -dy) and (-dx, -dy) exist with the same disk radius, inclination and stretches, the tilt mirrored to 180 degrees minus the tilt for a reflection about one axis and unchanged for a reflection about both (up to half a turn for points on an axis). The original quadrant keeps its values and coordinates, and a grid not starting at the origin is left alone.",
  ["inputs", "configurations"], "every content of the first quadrant, every grid size",
  "Tests never extend a grid; the property relates four array positions for every content.",
  [S, "GridParameters.py"], [("mirroring", "Shallot.py:_fill_quadrants"), ("extension", "Shallot.py:_extend_grid; GridParameters.py:extend_grid")],
  "the property cubes and coordinate vectors of a constructed or loaded grid")
p("C04", "The diagnostic map is the error of the radius factor axis",
  "The diagnostic map of a grid equals, at every grid point, the disk radius divided by the disk radius at the middle of that point's radius-factor axis, minus the radius factor of that point; undefined points stay undefined. It is always computed from the disk radii the grid holds.",
  ["inputs", "histories"], "every disk radius cube; after construction, extension and loading",
  "No test reads the diagnostic map.",
  [S], [("diagnosis", "Shallot.py:diagnose_fxfy_resolution")], "get_diagnostic_map of a grid")
p("C05", "The disk gradient is the projected slope of the concentric ellipse",
  "For every grid point and position, the disk gradient equals |sin(atan(slope))| where slope is the tangent, at (position, 0), of the ellipse concentric with and similar to the disk that passes through that point; it lies in [0, 1] and is 1 for a vertical tangent. Undefined grid points have an undefined gradient.",
  ["inputs"], "every grid centre, stretch, shear and position",
  "No test computes a gradient from a grid.",
  [S], [("slopes", "Shallot.py:_determine_disk_gradients")], "gradients added to a grid")
p("C06", "A measured gradient masks exactly the disks too shallow to explain it",
  "A measured gradient g scales to g times the orbital scale divided by the transmission change, where the orbital scale is pi/v (6-2u)/(12-12u+3 pi u) for velocity v and limb darkening u; times convert to positions as -time/duration. A grid point is masked exactly when its disk gradient is undefined or smaller than the scaled gradient, and a scaled gradient above one is refused.",
  ["inputs"], "every measured gradient, error, velocity, limb darkening, transmission change, duration and disk gradient",
  "Tests use one hand-made gradient cube and one set of values.",
  [S, "GridProperty.py"], [("scaling", "GridProperty.py:get_scaled_gradient; Shallot.py:_determine_orbital_scale"),
                           ("mask", "GridProperty.py:determine_mask")], "gradients of a grid: position, scaled gradient, mask")
p("C07", "The combined mask is the union of the masks, and getters apply it exactly",
  "A grid point is masked exactly when it is masked by the disk radius, inclination, tilt or any gradient mask; the Hill radius mask marks exactly the undefined disks and those larger than the Hill radius. Every getter returns the stored value where no requested mask applies and nan where one does, for every combination of its two masking switches.",
  ["inputs", "configurations"], "every content of the cubes, every set of masks, every Hill radius, all switch combinations",
  "No test covers grid getters, masks are arrays of arbitrary content and combination.",
  [S, "GridProperty.py"], [("union", "Shallot.py:get_combined_mask"), ("Hill mask", "Shallot.py:generate_hill_radius_mask"),
                           ("getters", "Shallot.py:get_disk_radius, get_inclination, get_tilt, get_fx_map, get_fy_map, get_diagnostic_map, get_gradients, get_gradient_fit")],
  "return values of the getters and the mask methods")
p("C08", "Reading a grid never changes it",
  "Getting data, masks, gradients, fits, solutions, grid point data or a printed form of a grid or one of its properties leaves every stored value unchanged. Modifying an array a getter returned has no effect on the grid or on later reads.",
  ["inputs", "histories"], "every content, every sequence of reads and writes into returned arrays",
  "Tests read once; aliasing shows only in the second read after a write.",
  [S, "GridProperty.py"], [("copying", "GridProperty.py:get_data"), ("getters", "Shallot.py:get_*, extract_solutions, determine_closest_grid_point")],
  "the cubes of a grid before and after reads")
p("C09", "The gradient fit is the weighted sum of squared residuals",
  "The fit of a grid point is the sum over all gradients of (disk gradient - scaled measured gradient) squared, each divided by the squared measurement error when weighting is on; it uses the unmasked gradients. It is undefined exactly where a disk gradient is undefined, and such points are masked in the fit.",
  ["inputs"], "every number of gradients up to the bound, every content, error and scale",
  "No test computes a fit.",
  [S], [("fit", "Shallot.py:determine_gradient_fit")], "get_gradient_fit")
p("C10", "Extracted solutions are the best distinct grid points in order",
  "Extracting N solutions returns N distinct unmasked grid points with the N smallest fits, in non-decreasing order of fit, each with the disk radius, inclination, tilt, dx and dy of that very point. By default all unmasked points are returned, and asking for more than there are is refused.",
  ["inputs"], "every fit content and mask, every N",
  "No test extracts solutions; order and ties need all contents.",
  [S], [("extraction", "Shallot.py:extract_solutions")], "return values of extract_solutions")
p("C11", "The closest grid point is the closest",
  "The grid point reported as closest to a given disk minimises the root of the summed squared differences in disk radius, inclination, tilt and impact parameter over all grid points available on the same side of the axis as the impact parameter. The reported indices, coordinates and distance all belong to that point.",
  ["inputs"], "every grid content and target disk",
  "No test calls it.",
  [S], [("search", "Shallot.py:determine_closest_grid_point")], "return value of determine_closest_grid_point")
p("C12", "Grid point data belong to the requested grid point",
  "The data returned for grid indices (y, x, rf) are the values every cube, every gradient and every coordinate vector hold at exactly those indices, masked or not as requested. Indices outside the grid are refused.",
  ["inputs", "configurations"], "every index triple, content and mask",
  "No test calls it.",
  [S], [("lookup", "Shallot.py:get_grid_point_data")], "return value of get_grid_point_data")
p("C13", "Gradients form a list that edits change exactly as asked",
  "Adding gradients appends one per time in the given order, removing indices removes exactly those, changing the eclipse parameters removes all, and updating the scaling changes velocity, limb darkening or transmission changes of the existing gradients and recomputes their masks. After any of these no fit computed from the earlier gradients can be read.",
  ["histories", "inputs"], "every sequence of such operations up to the bound, all values",
  "The lifecycle is a history property; no test exercises it.",
  [S], [("adding", "Shallot.py:add_gradients"), ("removing", "Shallot.py:remove_gradients"), ("rescaling", "Shallot.py:update_gradient_scaling"),
        ("reset", "Shallot.py:set_eclipse_parameters, _reset_gradient_fit")], "gradients, combined mask and gradient fit of a grid",
  [("gradients", "list of gradients, or none"), ("gradient_fit", "fit of the current gradients, or none")])
p("C14", "A refused gradient operation leaves the grid as it was",
  "If adding, removing or rescaling gradients, setting eclipse parameters or measuring a single gradient is refused with an error, then the gradients, their measured values and masks, the eclipse parameters and the fit are exactly what they were before the call.",
  ["inputs", "histories"], "every argument that is refused, at every gradient of the list",
  "Tests check that an error is raised but not the state afterwards.",
  [S, "GridProperty.py"], [("adding", "Shallot.py:add_gradients"), ("rescaling", "Shallot.py:update_gradient_scaling"),
                           ("measuring", "GridProperty.py:determine_mask"), ("parameters", "Shallot.py:set_eclipse_parameters")],
  "state of a grid after a raised error")
p("C15", "Grid parts survive saving and loading",
  "Saving grid parameters, a grid property, a grid gradient or grid diagnostics and loading them again gives back the same coordinates, values, mask, position and measured values, also when an earlier version was saved to the same place before. Loading from a place where a required file is missing or damaged raises a load error.",
  ["inputs", "histories", "fault_sequences"], "every content; every previous save to the same place; every missing file",
  "Tests round-trip one content into an empty folder.",
  ["GridParameters.py", "GridProperty.py", "GridDiagnostics.py", "errors.py"],
  [("parameters", "GridParameters.py:save, load"), ("property", "GridProperty.py:GridProperty.save, load"),
   ("gradient", "GridProperty.py:GridGradient.save_gradient, load"), ("diagnostics", "GridDiagnostics.py:save, load")],
  "the loaded objects")
p("C16", "A grid survives saving and loading",
  "A grid saved to a folder and loaded again has the same coordinates, resolution, disk radius, inclination, tilt and stretch cubes with their masks, the same gradients in the same order with their measured values and masks, the same diagnostics, and the derived diagnostic map. Gradients at equal or nearly equal positions are all kept, and gradients, masks and fits determined after loading are those the original would give.",
  ["inputs", "histories"], "every content of the cubes, masks and gradients; any number of gradients up to the bound",
  "No test saves or loads a grid.",
  [S], [("save", "Shallot.py:save"), ("load", "Shallot.py:load, _load_grid_attributes")], "the loaded grid")
p("C17", "An interrupted grid build resumes to the uninterrupted result",
  "If a grid build with intermittent saving stops at any point, loading the temporary folder afterwards either raises an error or yields a grid equal to the one an uninterrupted build produces; it never yields a different or incomplete grid, and an interruption between two rows is always resumed. Building or loading other grids without intermittent saving leaves the temporary folder alone.",
  ["crash_points", "histories", "fault_sequences"], "every file system operation of the build as the point of interruption, for every content the rows may have",
  "No test interrupts a build.",
  [S, "GridDiagnostics.py", "GridProperty.py"], [("build loop", "Shallot.py:_build_grid"), ("temporary folder", "Shallot.py:_create_temp_save_dir, _delete_temp_save_dir"),
                                                 ("resume", "Shallot.py:load")],
  "the grid loaded from the temporary folder")
R = "RingSystem.py"
p("C18", "Rings of a system never overlap, whatever edits it saw",
  "Starting from ordered, disjoint rings, adding, replacing or removing a ring is accepted exactly when the index exists and the result has ordered, disjoint rings; it then changes that ring only and gives it the inclination and tilt of the system. A refused edit leaves the system and the offered ring unchanged.",
  ["histories", "inputs"], "every sequence of edits up to the bound, every index and ring",
  "Tests try a handful of edits on one system.",
  [R, "Ring.py"], [("overlap check", "RingSystem.py:_prevent_ring_overlap"), ("edits", "RingSystem.py:add_ring, replace_ring, remove_ring"),
                   ("geometry", "RingSystem.py:_override_ring_geometry")], "the rings of the system", [("rings", "ordered array of rings")])
p("C19", "Splitting rings keeps the transmission profile",
  "Splitting divides each ring into the requested number of ringlets of equal width, in order, which tile the ring exactly and keep its transmission, so the transmission at every radius is unchanged. Invalid numbers of divisions are refused and leave the system unchanged.",
  ["inputs", "histories"], "every set of rings, every number of divisions up to the bound, every radius",
  "Tests split one system.",
  [R], [("split", "RingSystem.py:split_rings")], "the rings of the system")
p("C20", "Merging rings keeps the transmission profile",
  "Merging joins exactly the runs of neighbouring rings with equal transmission and gaps below the tolerance, each into one ring spanning the run; all other rings stay as they are. The transmission at every radius outside the closed gaps is unchanged, and merging undoes splitting.",
  ["inputs"], "every set of rings and tolerance, every radius",
  "Tests merge one system.",
  [R], [("merge", "RingSystem.py:merge_rings")], "the rings of the system")
p("C21", "A ring is always physically valid, whatever edits it saw",
  "A ring can only be created or edited such that 0 < inner radius < outer radius, the transmission is in [0, 1], the inclination in [0, 90] and the tilt in [-180, 180]; everything else, nan included, is refused and leaves the ring unchanged. Accepted values are stored exactly, except an inner radius of zero, which becomes a negligible positive one.",
  ["histories", "inputs"], "every value, nan and infinities included, every sequence of edits up to the bound",
  "Tests check single edits with a few values.",
  ["Ring.py", "validate.py"], [("setters", "Ring.py:inner_radius, outer_radius, transmission, inclination, tilt"), ("bounds", "validate.py:number")],
  "attributes of the ring", [("ring", "five validated numbers")])
p("C22", "A ring is drawn as its projected annulus",
  "The patch of a ring is bounded by two concentric ellipses around the given centre: the circles of the outer and the inner radius, compressed along one axis by the cosine of the inclination and rotated by the tilt, traversed in opposite senses so that the hole is empty. Its opacity is one minus the transmission.",
  ["inputs"], "every ring, centre and point on the circles",
  "Tests compare one patch with numbers from a copy of the code.",
  ["Ring.py", R], [("patch", "Ring.py:get_patch")], "vertices and opacity of the patch")
p("C23", "A plot of a ring system shows all of it",
  "Plotting adds the planet, centred where asked with its radius, and one patch per ring with that ring's geometry and opacity at the same centre, in order. The limits set on both axes contain all rings around that centre.",
  ["inputs"], "every ring system, centre and tilt",
  "Tests compare with one unshifted plot.",
  [R], [("plot", "RingSystem.py:plot"), ("patches", "RingSystem.py:_get_patches")], "patches and limits of the axes")
p("C24", "Validation accepts exactly what its rule allows",
  "A number or array is accepted exactly when it has the required type and dimensions and every element lies within the bounds, inclusively or exclusively as asked; nan never passes a bound. Accepted values are returned unchanged, refused ones raise an error.",
  ["inputs"], "every number incl. nan and infinities, every bound, arrays up to the bound",
  "Tests try a few values per rule and none of the special ones.",
  ["validate.py"], [("number", "validate.py:number"), ("array", "validate.py:array"), ("others", "validate.py:string, boolean, class_object, same_shape_arrays")],
  "return value or error of the validators")
p("C25", "Diagnostics give back what was stored for a grid point",
  "The diagnostic stored for a grid point is returned for that point and, after extension, for its mirror images, and never for any other; points outside the grid and points without a diagnostic raise an error. Once extended, nothing can be stored any more.",
  ["inputs", "histories"], "every grid size up to the bound, every point, every sequence of stores",
  "Tests read one corner.",
  ["GridDiagnostics.py"], [("key", "GridDiagnostics.py:_generate_key"), ("access", "GridDiagnostics.py:get_diagnostic, save_diagnostic")],
  "return value of the lookup")
p("C26", "The cube viewer shows the slice its index names",
  "After any sequence of scroll events the viewer's index lies within the cube and the picture shown is exactly the slice of the (masked or unmasked) data at that index, with the title naming its coordinate and, on the radius factor axis, whether it is a horizontal, vertical or the middle slice; a frozen viewer never changes. Scrolling up or down moves the index by one unless at the end, and the given coordinates are marked exactly while a slice within a third of the spacing of theirs is shown.",
  ["histories", "inputs"], "every sequence of scroll events up to the bound, every axis, content, mask and start index",
  "Tests scroll once.",
  ["GridProperty.py"], [("scrolling", "GridProperty.py:GridPropertyViewer.onscroll"), ("picture", "GridProperty.py:GridPropertyViewer.update")],
  "index, image data and title of the viewer")
p("C27", "Grid parameters are evenly spaced axes of the requested extent",
  "The dx and dy axes run from the requested minimum to the maximum in the requested number of equal steps, the radius factor axis falls from its maximum to 1 and rises again symmetrically, and the shapes agree with the axes. Extension, allowed exactly when both axes start at zero, mirrors the axes about zero and keeps the original values; invalid requests are refused and a refused extension changes nothing.",
  ["inputs", "configurations"], "every extent, every size up to the bound",
  "Tests use one set of parameters.",
  ["GridParameters.py"], [("axes", "GridParameters.py:_determine_dx, _determine_dy, _determine_rf"), ("extension", "GridParameters.py:extend_grid")],
  "vectors and shapes of the parameters")
p("C28", "A grid refines with the interpolation resolution",
  "As the number of stretch samples grows, the radius factors of a built grid converge to the requested ones, so the diagnostic map tends to zero.",
  ["configurations"], "every resolution",
  "A limit statement; tests use no grid.",
  [S], [("interpolation", "Shallot.py:_interpolate_scale_values")], "the diagnostic map")
p("C29", "The radius factor axis is interpolated between samples that span it",
  "The stretch samples taken for a grid point are defined and ascend, and the disks they describe reach the maximum radius factor on both sides of the smallest one. The middle disk of the radius factor axis is the smallest sampled one; the vertical stretches of the horizontal half are at most, those of the vertical half at least the middle one, and each lies between the two neighbouring samples on its side whose disk radii enclose its radius factor times the smallest radius, strictly where they do so strictly.",
  ["inputs", "configurations"], "every maximum radius factor at each centre tried",
  "Tests compare one grid with a stored result.",
  [S], [("samples", "Shallot.py:_generate_fxy_array, _extend_grid_horizontally, _extend_grid_vertically"), ("interpolation", "Shallot.py:_interpolate_scale_values")],
  "the stored diagnostics (samples) and the vertical stretches of a grid")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x) + "\n")
print(len(P))
