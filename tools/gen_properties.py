#!/usr/bin/env python3
"""Writes properties.jsonl (single source for ids, titles and statements)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

add("C01", "Reading any byte stream ends in a composite or an error, never a crash",
 "For every finite byte stream, reading a composite terminates and yields a composite or an error; it never panics, indexes out of range, divides by zero or asks for an impossible allocation, whatever sizes, counts or text the header declares. On whatever composite comes back (also next to an error) and on every dummy composite, reading a pixel at any coordinate and projecting any position never panic, and neither does rendering any layer of a successfully read composite.",
 ["inputs"], "all byte streams; all coordinates, layers and positions; all dummy sizes and versions",
 "The tests parse two well-formed headers and no data section at all; no test feeds a malformed or hostile stream.",
 ["radolan.go", "header.go", "data.go", "littleendian.go", "singlebyte.go", "runlength.go", "projection.go", "radolan2png/vis/vis.go"],
 [("header validation", "header.go: parseHeader"), ("size checks before decoding", "littleendian.go: decodeLittleEndian, singlebyte.go: decodeSingleByte, runlength.go: decodeRunlength"), ("bounds test", "radolan.go: AtZ")],
 ["NewComposite", "At", "AtZ", "Project", "vis.Image"])
add("C02", "Header fields become exactly the metadata they declare",
 "After a successful parse of a header (ASCII text that starts with an upper-case letter) the product label is the first two header characters, the unit is the catalogued unit of that label (unknown otherwise, reported as the unknown-unit error), and the capture time is the header's day, hour, minute, month and year. The forecast time is the capture time plus the declared forecast minutes (equal to it when none are declared), the interval is the declared number of minutes, ten times that for the products W1 to W4 and zero if undeclared, and format version, decimal precision and level table are those declared. A field that is present but unparsable makes the read fail. Declared minutes are meant to fit a time span (about 290 years).",
 ["inputs"], "all headers: every product label, every combination of present and absent optional fields, every field content",
 "Two sample headers are tested; of 67 labels two are tested, no W product, no version, no malformed field.",
 ["header.go", "catalog.go"],
 [("field interpretation", "header.go: parseHeader"), ("unit table", "catalog.go: unitCatalog")],
 ["Composite.Product", "Composite.DataUnit", "Composite.CaptureTime", "Composite.ForecastTime", "Composite.Interval", "Composite.Format"])
add("C03", "Every header field is read from its own text only",
 "A header is a sequence of fields: a maximal run of upper-case letters (the name) followed by the text up to the next upper-case letter (the content); if a name occurs more than once the last occurrence counts. Every field of an ASCII header is found under exactly its name with exactly its own content, a name at the end of the header has empty content, and nothing else is reported as a field.",
 ["inputs"], "all ASCII headers of any length, with any number, order, repetition and content of fields",
 "The tests exercise two fixed headers; field order, repetition, empty contents and trailing names are never varied.",
 ["header.go"],
 [("field splitter", "header.go: splitHeader")],
 ["NewComposite", "splitHeader result"])
add("C04", "Grid dimensions and resolution come from the header or the catalog",
 "A successfully read composite has the rows and columns declared by the header's grid field (rows first, then columns), or by the packed three-digit picture field if the grid field is absent, or otherwise the catalogued plain and layer dimensions of its product label, together with the catalogued resolution in km per pixel. If none of these gives dimensions, or a dimension is not positive or exceeds 16384, the read fails.",
 ["inputs"], "all headers and all product labels, square and non-square grids",
 "Both header tests use square grids, so swapped axes go unnoticed, and no catalogued product is ever parsed.",
 ["header.go", "catalog.go", "projection.go"],
 [("dimension parsing", "header.go: parseHeader"), ("dimension table", "catalog.go: dimensionCatalog")],
 ["Composite.Dx", "Composite.Dy", "Composite.Px", "Composite.Py", "Composite.Rx", "Composite.Ry"])
add("C05", "Two-byte samples decode by the RADOLAN bit layout",
 "In two-byte little-endian products every sample with bit 13 set is no-data (NaN); every other sample is its low twelve bits, negated if bit 14 is set, scaled by ten to the declared precision, and for dBZ products then mapped by v/2-32.5. No other bit, neighbouring sample or earlier parse influences the value.",
 ["inputs"], "all 65536 samples at every position, all precisions, all units",
 "The decoders have no tests at all.",
 ["littleendian.go", "conversion.go"],
 [("sample decoder", "littleendian.go: rvp6LittleEndian"), ("scaling", "conversion.go: rvp6Raw, toDBZ"), ("line decoder", "littleendian.go: decodeLittleEndian")],
 ["Composite.PlainData", "Composite.At"])
add("C06", "One-byte samples decode to scaled values or no-data",
 "In one-byte products the sample 250 is no-data (NaN) and every other sample is its unsigned byte value scaled by ten to the declared precision, for dBZ products then mapped by v/2-32.5.",
 ["inputs"], "all 256 samples at every position, all precisions, all units",
 "The decoders have no tests at all.",
 ["singlebyte.go", "conversion.go"],
 [("sample decoder", "singlebyte.go: rvp6SingleByte"), ("line decoder", "singlebyte.go: decodeSingleByte")],
 ["Composite.PlainData", "Composite.At"])
add("C07", "Run-length lines expand to exactly the encoded runs",
 "A run-length line is a line-number byte, then one offset (bytes of at least 16, each adding its value minus 16, continued while the byte is 255), then run bytes whose high nibble is the repeat count and low nibble the level; each run puts the declared level value (NaN for level 0 or levels beyond the table) on the next pixels. Pixels no run covers are NaN, and an offset byte below 16 or a run past the right edge makes the read fail.",
 ["inputs"], "all lines of all lengths and contents, all widths, all level tables",
 "The decoders have no tests at all; the property quantifies over arbitrarily long byte sequences.",
 ["runlength.go"],
 [("line decoder", "runlength.go: decodeRunlength"), ("level lookup", "runlength.go: rvp6Runlength")],
 ["Composite.PlainData", "Composite.At"])
add("C08", "Every sample of the file lands on its own pixel; short files are rejected",
 "In one- and two-byte products the samples following the header fill the plain raster from the bottom row up, left to right, each row directly following the previous one; in run-length products each newline-terminated line fills one row from the top down. Every plain pixel is determined by exactly its own sample or line, and if the stream ends before the raster is complete the read fails.",
 ["inputs"], "all raster sizes, all data contents, all truncation points",
 "No test parses a data section; orientation and row addressing are never checked.",
 ["data.go", "littleendian.go", "singlebyte.go", "runlength.go"],
 [("row loops", "littleendian.go: parseLittleEndian, singlebyte.go: parseSingleByte, runlength.go: parseRunlength"), ("line readers", "readLineLittleEndian, readLineSingleByte, readLineRunlength")],
 ["Composite.PlainData"])
add("C09", "The encoding is chosen from the header alone",
 "A header with a level table selects run-length decoding; otherwise a data section (declared length minus header length) of two bytes per plain pixel selects two-byte decoding and one of one byte per plain pixel selects one-byte decoding. Any other data length makes the read fail.",
 ["inputs"], "all declared lengths, header lengths, raster sizes and level tables",
 "No test reaches the encoding choice.",
 ["data.go", "header.go"],
 [("choice", "data.go: identifyEncoding"), ("dispatch table", "data.go: parse, init")],
 ["NewComposite"])
add("C10", "Layers are exact, complete views of the plain raster",
 "If the plain height is a multiple of the layer height, the composite has plain height / layer height layers and layer z holds rows z*height to (z+1)*height-1 of the plain raster; otherwise it has the single layer made of its bottommost rows. The layer count equals the number of layers, every layer has exactly the declared rows, and the two-dimensional data is layer 0 (the same storage, not a copy).",
 ["inputs"], "all plain and layer heights, in particular the 3D products with twelve layers and the picture products with an elevation strip",
 "No test arranges any data.",
 ["data.go"],
 [("layer slicing", "data.go: arrangeData")],
 ["Composite.DataZ", "Composite.Data", "Composite.Dz"])
add("C11", "Pixel access returns the stored value inside and NaN outside",
 "Asking for the value at (x, y) or (x, y, z) returns the stored raster value exactly when each coordinate lies between zero and the width, height or layer count, and NaN for every other coordinate, including negative ones and composites that hold no data. The two-dimensional access is the three-dimensional access to layer 0.",
 ["inputs"], "all coordinates and all composites, parsed, failed and dummy",
 "No test calls the accessors.",
 ["radolan.go"],
 [("bounds test", "radolan.go: AtZ")],
 ["At", "AtZ"])
add("C12", "Conversions between raw value, dBZ and rain rate are exact and inverse",
 "dBZ = raw/2-32.5 and its inverse restore every raw integer value from 0 to 4095 exactly, and the conversion never reverses order. For every Z-R relationship Z = a*R^b with positive a and b, the rain rate R of a reflectivity satisfies 10^(dBZ/10) = a*R^b, the reflectivity of a rate undoes the rate of a reflectivity up to rounding, larger reflectivity gives larger rate, and the four predefined relationships have their published a and b.",
 ["inputs"], "all raw values, all reflectivities and rates, all a > 0 and b > 0",
 "The test checks four values against one relationship.",
 ["conversion.go"],
 [("dBZ map", "conversion.go: toDBZ, toRVP6"), ("Z-R constants", "conversion.go: NewZR"), ("Z-R maps", "conversion.go: PrecipitationRate, Reflectivity")],
 ["NewZR", "PrecipitationRate", "Reflectivity", "Composite.At"])
add("C13", "A projection is offered exactly for the supported grids",
 "A composite offers a projection exactly if its width and height are those of a supported grid (900x900, 920x920, 900x1100, 1100x1200, 1400x1500) with both halved or doubled any number of times, and, for format version 5 and above, only for the 1100x1200 grid. Without a projection every projected coordinate is NaN (so is the resolution of composites whose resolution is not catalogued).",
 ["inputs"], "all integer dimensions including zero, negative and scaled ones, all format versions, all positions",
 "Ten fixed dimensions are tested, all with a projection; the negative cases are never tested.",
 ["projection.go"],
 [("reduction", "projection.go: minRes"), ("grid detection", "projection.go: detectGrid"), ("calibration", "projection.go: calibrateProjection")],
 ["Composite.HasProjection", "Project", "NewDummy"])
add("C14", "Projected coordinates are the grid's calibrated polar stereographic ones",
 "Where a projection is offered, a position is mapped by the polar stereographic projection (sphere of radius 6370.04 km true at 60N, 10E for versions below 5; WGS84 ellipsoid true at 60N, 10E from version 5) relative to the grid's documented upper-left corner and divided by the resolution. Up to rounding the documented upper-left corner is (0, 0) and the documented lower-right corner is (width, height), the full-size grids have 1 km resolution within 0.1 percent (PG: 2 km at 460), and halving a grid halves coordinates and doubles resolution.",
 ["inputs"], "all positions north of the south pole, all supported grids at all scales, both earth models",
 "About thirty reference points are tested; the grid reference files are missing so the dense test cannot run.",
 ["projection.go", "projection_sphere.go", "projection_wgs84.go"],
 [("corner table", "projection.go: cornerPoints"), ("calibration", "projection.go: calibrateProjection"), ("sphere formula", "projection_sphere.go: projectSphere"), ("ellipsoid formula", "projection_wgs84.go: projectWGS84")],
 ["Project", "Composite.Rx", "Composite.Ry"])
add("C15", "An archive yields all its composites in forecast order",
 "Reading an archive returns exactly one composite per archive entry, each parsed from that entry's own content, ordered by non-decreasing forecast time whatever the order in the archive. If the archive or any entry cannot be read it returns the error and no composites.",
 ["inputs"], "all archives: any number and order of entries, equal times, broken entries",
 "No test reads an archive.",
 ["radolan.go"],
 [("archive loop and sort", "radolan.go: NewComposites")],
 ["NewComposites"])
add("C16", "A rendered image shows every pixel of the chosen layer and only that",
 "Rendering a layer yields an image exactly as wide and high as the composite in which the pixel at (x, y) has the colour the colour function gives for that layer's value at column x, row y. For a layer that does not exist the image is of the same size and entirely blank.",
 ["inputs"], "all composites, all layers including negative ones, all colour functions",
 "The rendering package has no tests.",
 ["radolan2png/vis/vis.go"],
 [("pixel loop", "radolan2png/vis/vis.go: Image")],
 ["vis.Image"])
add("C17", "Colour gradients are opaque, black below range or without data, saturating",
 "For all bounds min < max (after compression) every colour is opaque; the linear gradients give black for values below min and for NaN, the gray gradient gives level floor(255*p) for relative position p = (v-min)/(max-min) capped at 1, and the heat gradient the colour with hue (240-330p) mod 360, saturation 1 and lightness 0.25+0.5p. The radial gradient gives black for NaN, marks speeds up to 1 as full brightness with 0xCC on the other channels, and otherwise brightness floor(255*compressed|v|/compressed base) capped at 255, on red for receding and on green and blue for approaching speeds, base being the larger bound magnitude with positive compressed value.",
 ["inputs"], "all values including NaN and infinities, all bounds, both compressions",
 "The rendering package has no tests.",
 ["radolan2png/vis/vis.go"],
 [("gradients", "radolan2png/vis/vis.go: Graymap, Radialmap, Heatmap")],
 ["vis.Graymap", "vis.Heatmap", "vis.Radialmap"])
add("C18", "Results depend on the arguments alone: no hidden shared state",
 "Parsing, projecting, converting, accessing and colouring leave every piece of package-level state unchanged, and every operation changes nothing but the object it builds: projecting, accessing, converting and rendering modify no composite, and colour functions keep no memory between calls. Hence results do not depend on earlier or concurrent calls on other objects.",
 ["histories", "inputs"], "all sequences of calls on all arguments",
 "A test runs one history; interference needs a particular earlier call.",
 ["radolan.go", "projection.go", "data.go", "header.go", "conversion.go", "radolan2png/vis/vis.go"],
 [("no writes to package state outside initialisation", "all packages"), ("frames of the accessors and of the projection", "radolan.go: AtZ; projection.go: Project")],
 ["all exported functions"])
add("C19", "The predefined gradients cover their documented ranges",
 "The exported colour functions of the rendering package are, for every value, the gradients their documentation names: HeatmapReflectivityShort, HeatmapReflectivity and HeatmapReflectivityWide are linear heat gradients up to 75 dBZ starting at 5, 1 and -32.5 dBZ; HeatmapAccumulatedHour and HeatmapAccumulatedDay are logarithmic heat gradients from 0.1 mm to 100 mm and 200 mm; HeatmapRadialVelocity is the radial gradient of logarithmic speed with base 31.5; GraymapLinear and GraymapLinearWide are linear gray gradients from 0 to 409.5 and 4095. Values below the range and missing values are black, values above it have the colour of the upper bound.",
 ["inputs"], "all values including NaN and infinities",
 "The rendering package has no tests.",
 ["radolan2png/vis/vis.go"],
 [("package-level gradients", "radolan2png/vis/vis.go: var block; Heatmap, Graymap, Radialmap")],
 ["vis.HeatmapReflectivity and the other exported colour functions"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
