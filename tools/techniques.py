"""Deciding method of each check, for MANIFEST.json."""
TECHNIQUE = {
    "P01": "property-based testing: generated models and points against a reference interpolation (sanitized build)",
    "P02": "property-based testing: generated NODATA masks against a reference interpolation",
    "P03": "property-based testing: generated placements against pyproj and documented vertical mapping",
    "P04": "property-based testing: generated surfaces and points against a bilinear reference",
    "P05": "stateful property-based testing: operation sequences against fresh-object runs and window sizes",
    "P06": "property-based testing: overlapping model sets, differential against single-model queries",
    "P07": "property-based testing: generated value lists and unit conflicts against a selection model",
    "P08": "property-based testing: metamorphic relation between squashed and unsquashed queries",
    "P09": "property-based testing: special and extreme coordinates under sanitizers with a status oracle",
    "P10": "differential property-based testing of the C++, C and Python interfaces",
    "P11": "property-based testing: round trips and differential testing against pyproj",
    "P12": "property-based testing: differential between the application's output and library queries",
    "P13": "property-based testing: differential between the application's output and library queries",
    "P14": "property-based testing: application output against a computed depth list and library queries",
    "P15": "property-based testing: application raster against a library-sampled profile oracle",
    "P16": "property-based testing: generated conforming and violating models against expected reports",
    "P17": "property-based testing: write/read round trip and differential against reads with GDAL itself",
    "P18": "stateful model-based property testing of operation sequences",
    "P19": "property-based testing: generated metadata, write/read round trip",
    "P20": "structure-aware fuzzing of model files under sanitizers",
    "P21": "property-based testing: generated configurations, create/query round trip",
    "P22": "property-based testing: generated sizes against a partition invariant",
    "P23": "property-based testing: metamorphic relation between batched and unbatched creation",
    "P24": "property-based testing: generated CSV files against expected grids",
    "P25": "property-based testing: print/parse round trip of lists and units",
    "P26": "property-based testing: generated coordinates against a monotone reference",
    "P27": "property-based testing: generated boxes and indices against the source arrays",
    "P28": "stateful model-based property testing of histories over several objects",
    "P29": "stateful property-based testing: re-import sequences with before/after comparison",
    "P30": "property-based testing: generated invalid and permuted command lines",
    "P31": "property-based testing: generated EarthVision models (stand-in programs), rules and configurations against direct evaluation",
    "P32": "property-based testing: generated EMC files against the created model",
    "P33": "property-based testing: generated fault blocks, zones, locations and depths against a table of the published relations",
}
NOTE = {}
NOT_APPLICABLE = {}
