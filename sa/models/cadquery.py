"""What the drawing library does, as far as the meshes here need it: every solid
remembers how it was made.  Read by the analysis, never run."""


class Workplane:
    def __iter__(self):
        return iter(())

    def __init__(self, inPlane='XY', origin=(0, 0, 0), obj=None):
        self.made = (('plane', inPlane, origin),)

    def _then(self, *step):
        new = Workplane()
        new.made = self.made + (step,)
        return new

    def sphere(self, radius):
        return self._then('sphere', radius)

    def cylinder(self, height, radius):
        return self._then('cylinder', height, radius)

    def box(self, length, width, height):
        return self._then('box', length, width, height)

    def rect(self, xLen, yLen):
        return self._then('rect', xLen, yLen)

    def circle(self, radius):
        return self._then('circle', radius)

    def polygon(self, nSides, diameter, circumscribed=False):
        return self._then('polygon', nSides, diameter, circumscribed)

    def moveTo(self, x=0, y=0):
        return self._then('moveTo', x, y)

    def lineTo(self, x, y):
        return self._then('lineTo', x, y)

    def line(self, xDist, yDist):
        return self._then('line', xDist, yDist)

    def hLine(self, distance):
        return self._then('line', distance, 0)

    def vLine(self, distance):
        return self._then('line', 0, distance)

    def polyline(self, listOfXYTuple):
        return self._then('polyline', listOfXYTuple)

    def close(self):
        return self._then('close')

    def extrude(self, until, combine=True, clean=True, both=False, taper=None):
        return self._then('extrude', until, both, taper)

    def revolve(self, angleDegrees=360, axisStart=None, axisEnd=None):
        return self._then('revolve', angleDegrees, axisStart, axisEnd)

    def workplane(self, offset=0):
        return self._then('workplane', offset)

    def loft(self):
        return self._then('loft')

    def translate(self, vec):
        return self._then('translate', vec)

    def rotate(self, axisStartPoint, axisEndPoint, angleDegrees):
        return self._then('rotate', axisStartPoint, axisEndPoint, angleDegrees)

    def union(self, toUnion):
        return self._then('union', toUnion.made)

    def cut(self, toCut):
        return self._then('cut', toCut.made)

    def intersect(self, toIntersect):
        return self._then('intersect', toIntersect.made)

    def add(self, obj):
        return self._then('union', obj.made)


class Vector:
    def __init__(self, x=0, y=0, z=0):
        self.xyz = (x, y, z)


class Edge:
    def makeLine(v1, v2):
        return (v1.xyz, v2.xyz)


class Wire:
    def combine(listOfWires):
        return [listOfWires]

    def assembleEdges(listOfEdges):
        return listOfEdges


class Face:
    def makeFromWires(outerWire):
        return outerWire


class Shell:
    def makeShell(listOfFaces):
        return listOfFaces


class Solid:
    def makeSolid(shell):
        return shell


def CQ(obj):
    new = Workplane()
    new.made = (('solid', obj),)
    return new
