"""What a picture shows, read off the drawn geometry: line cells, polygon cells, texts and cones."""
import numpy as np


class Scene:
    def __init__(self):
        self.lines, self.polys, self.texts, self.cones, self.balls, self.points = [], [], [], [], [], np.zeros((0, 3))
        self.ranges = []

    def segments(self):
        """All straight pieces of all lines, as an array (n, 2, 3)."""
        s = [np.stack([l[:-1], l[1:]], 1) for l in self.lines if len(l) > 1]
        s = np.concatenate(s) if s else np.zeros((0, 2, 3))
        return s[np.isfinite(s).all((1, 2))]      # an arc of no radius has no finite points


def _cells(arr):
    """Point ids of each cell of a vtkCellArray."""
    from vtk.util.numpy_support import vtk_to_numpy
    if arr.GetNumberOfCells() == 0:
        return []
    off = vtk_to_numpy(arr.GetOffsetsArray())
    con = vtk_to_numpy(arr.GetConnectivityArray())
    return [con[a:b].tolist() for a, b in zip(off[:-1], off[1:])]


def _add(scene, pd, M=None, lut=None):
    from vtk.util.numpy_support import vtk_to_numpy
    if pd is None or pd.GetNumberOfPoints() == 0:
        return
    X = np.array(vtk_to_numpy(pd.GetPoints().GetData()), float)
    if M is not None:
        X = X @ M[:3, :3].T + M[:3, 3]
    scene.points = np.concatenate([scene.points, X])
    for c in _cells(pd.GetLines()):
        scene.lines.append(X[c])
    sc = pd.GetPointData().GetScalars()
    sc = None if sc is None else np.array(vtk_to_numpy(sc), float)
    polys = _cells(pd.GetPolys())
    for c in polys:
        scene.polys.append((X[c], None if sc is None or sc.ndim > 1 else sc[c]))
    if lut is not None and sc is not None:
        scene.ranges.append(tuple(lut))
    # connected bodies
    up = {}

    def find(a):
        while up[a] != a:
            up[a] = up[up[a]]
            a = up[a]
        return a
    for c in polys:
        for p in c:
            up.setdefault(p, p)
        for p in c[1:]:
            up[find(p)] = find(c[0])
    for c in _cells(pd.GetStrips()):
        for p in c:
            up.setdefault(p, p)
        for p in c[1:]:
            up[find(p)] = find(c[0])
    bodies = {}
    for p in up:
        bodies.setdefault(find(p), []).append(p)
    by = {}
    for c in polys:
        by.setdefault(find(c[0]), []).append(c)
    for root, pts in bodies.items():
        cs = by.get(root, [])
        hexa = [c for c in cs if len(c) == 6]
        if len(pts) == 7 and len(hexa) == 1:
            apex = (set(pts) - set(hexa[0])).pop()
            scene.cones.append((X[apex], X[hexa[0]].mean(0)))
        elif len(pts) > 30:
            scene.balls.append(((X[pts].max(0) + X[pts].min(0)) / 2, X[pts].max(0) - X[pts].min(0)))


def _matrix(actor):
    m = actor.GetMatrix()
    return np.array([[m.GetElement(i, j) for j in range(4)] for i in range(4)])


def of_vtk(renderer):
    import vtk
    s = Scene()
    props = renderer.GetViewProps()
    props.InitTraversal()
    for _ in range(props.GetNumberOfItems()):
        a = props.GetNextProp()
        if isinstance(a, vtk.vtkFollower):
            if not a.GetVisibility():
                continue
            m = a.GetMapper()
            src = m.GetInputConnection(0, 0).GetProducer()
            s.texts.append((src.GetText() if isinstance(src, vtk.vtkVectorText) else "?", np.array(a.GetPosition(), float)))
        elif isinstance(a, vtk.vtkActor) and a.GetVisibility():
            m = a.GetMapper()
            if m.GetNumberOfInputConnections(0):
                alg = m.GetInputConnection(0, 0).GetProducer()
                if isinstance(alg, vtk.vtkAppendPolyData) and alg.GetNumberOfInputConnections(0) == 0:
                    continue
                alg.Update()
            lut = m.GetLookupTable().GetTableRange() if m.GetInput() is not None and m.GetInput().GetPointData().GetScalars() is not None else None
            _add(s, m.GetInput(), _matrix(a), lut)
    return s


def of_pyvista(plotter):
    import vtk
    s = Scene()
    for a in list(plotter.renderer.actors.values()):
        if isinstance(a, vtk.vtkActor):
            if not a.GetVisibility():
                continue
            m = a.GetMapper()
            pd = m.GetInput()
            lut = m.GetScalarRange() if pd is not None and pd.GetPointData().GetScalars() is not None else None
            _add(s, pd, _matrix(a), lut)
        elif isinstance(a, vtk.vtkActor2D):
            m = a.GetMapper()
            if m is None or m.GetNumberOfInputPorts() == 0 or m.GetNumberOfInputConnections(0) == 0:
                continue
            h = m.GetInputConnection(0, 0).GetProducer()
            while h is not None and not isinstance(h, vtk.vtkPointSetToLabelHierarchy) and h.GetNumberOfInputPorts() and h.GetNumberOfInputConnections(0):
                h = h.GetInputConnection(0, 0).GetProducer()
            if not isinstance(h, vtk.vtkPointSetToLabelHierarchy):
                continue
            src = h.GetInputConnection(0, 0).GetProducer()
            if isinstance(src, vtk.vtkSelectVisiblePoints):
                src.GetInputConnection(0, 0).GetProducer().Update()
                pd = src.GetInputDataObject(0, 0)
            else:
                src.Update()
                pd = h.GetInputDataObject(0, 0)
            arr = pd.GetPointData().GetAbstractArray("labels")
            for k in range(pd.GetNumberOfPoints()):
                s.texts.append((str(arr.GetVariantValue(k).ToString()), np.array(pd.GetPoint(k), float)))
    return s
