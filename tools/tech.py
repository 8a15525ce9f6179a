TECH = {
 "C06": "property-based testing: generated vectors/points/normals of every dimension and scalar type against component-wise and wide-precision reference algebra",
 "C07": "property-based testing: generated interval vectors, rays and transforms against exact/113-bit reference geometry at generated points inside",
 "C08": "property-based testing: generated matrices against exact integer, f64/113-bit and Gauss-Jordan reference algebra",
 "C09": "model-based property testing: generated transform construction histories against a wide-precision reference matrix pair",
 "C10": "property-based testing: generated parameters against Rodrigues reference and metamorphic rotation laws",
 "C11": "property-based testing: generated views and frusta against wide-precision reference matrices and the meaning of the corners",
 "C12": "property-based testing: generated transform histories, normals and vectors against the invariance of the dot product (metamorphic)",
 "C13": "property-based testing: generated box pairs and points against the set definitions of containment, union, intersection and overlap",
 "C14": "property-based testing: generated boxes and transform histories against the span of the mapped corners",
 "C15": "property-based testing: generated boxes and rays (parallel, on faces, inside, flat, empty) against a reference slab oracle with error bounds",
 "C16": "property-based testing: generated boxes and rays against reference entry point, face and normal",
 "C17": "property-based testing: generated clipped spheres and aimed rays against reference roots with error bounds",
 "C18": "property-based testing: generated hits against the documented parametrisation, difference quotients, outward normal, closed-form area and additivity",
 "C19": "model-based property testing: recording stub primitives and real shapes under generated transform nests against reference geometry",
 "C20": "model-based property testing: generated scenes (nested lists, transformed shapes, stubs) against the minimum over the members' own hits; permutation and nesting relations",
 "C21": "property-based testing: generated samples against the reference maps and area of mapped rectangles (metamorphic)",
 "C22": "property-based testing: generated cameras and samples against reference thin-lens geometry",
 "C23": "model-based property testing: generated cameras, samples and scenes end to end against reference geometry of every member, and the round trip through view and projection",
 "C24": "metamorphic property testing: generated scenes, placements, boxes and cameras in two units of length, ray speeds and heading lengths (powers of two), answers compared to a few ulps",
}
