"""Data source used by the creation checks; it runs inside the Python server and records every call."""
import numpy
from geomodelgrids.create.core.datasrc import DataSrc

MODE, SEED, RECORDS, CALLS = "smooth", 1, [], 0


def field(points, k, seed):
    """Smooth function of location, different for each value and seed."""
    x, y, z = points[..., 0], points[..., 1], points[..., 2]
    if numpy.abs(points[..., :2]).max() < 400.0:  # degrees
        x, y = 1.0e5 * x, 1.0e5 * y
    a = 1.0 + 0.37 * k + 0.11 * (seed % 17)
    return 500.0 * numpy.sin(a * x / 911.0 + seed) * numpy.cos(a * y / 1277.0 - k) + 0.013 * z * a + 10.0 * (seed % 7)


class Source(DataSrc):

    def __init__(self, config):
        super().__init__()
        self.config = config

    def _surface(self, kind, points):
        global CALLS
        CALLS += 1
        points = numpy.array(points)
        if MODE == "random":
            rng = numpy.random.default_rng([SEED, CALLS])
            elev = rng.uniform(-0.4, 0.5, size=points.shape[:2])
        else:
            elev = 0.0008 * field(points, 3 if kind == "top_surface" else 5, SEED)
        elev = elev * float(self.config["domain"]["dim_z"])
        elev = elev.reshape(elev.shape + (1,))
        RECORDS.append((kind, None, points.copy(), elev.copy(), None))
        return elev

    def get_top_surface(self, points):
        return self._surface("top_surface", points)

    def get_topography_bathymetry(self, points):
        return self._surface("topography_bathymetry", points)

    def get_values(self, block, top_surface, topo_bathy, batch=None):
        global CALLS
        CALLS += 1
        points = numpy.array(block.generate_points(top_surface, batch))
        nv = len(self.config["data"]["values"].split(","))
        rng_ = None if batch is None else tuple(tuple(int(i) for i in r) for r in (batch.x_range, batch.y_range, batch.z_range))
        if MODE == "random":
            rng = numpy.random.default_rng([SEED, CALLS])
            values = numpy.round(rng.uniform(-1000.0, 9000.0, size=points.shape[:3] + (nv,)), 2)
        else:
            values = numpy.stack([field(points, k, SEED) for k in range(nv)], axis=3)
        elev = numpy.array(block.get_surface(top_surface, batch)) if top_surface else None
        RECORDS.append((block.name, rng_, points.copy(), values.copy(), elev))
        return values
