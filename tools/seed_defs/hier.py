from seedpre import *
SEEDS = [
    dict(id="P01-count-after-yield", property="P01",
         edits=[(CI, '''                    # Decrement by each element
                    self._cnt_subelements -= 1
                    # Yield element
                    yield el
''', '''                    # Yield element
                    yield el
                    # Decrement by each element
                    self._cnt_subelements -= 1
''')],
         needs="a removal by name whose generator is abandoned after the first of several same-named elements",
         breaks="the reported number of sub-elements no longer equals the number held", demo=PRE + '''
r = node("r")
a, b = node("x", r), node("x", r)
g = r.remove_element("x")
next(g)
g.close()
check(r.cnt_subelements == len(list(r.get_subelements(lambda e: True))), "count after a half-consumed removal")
'''),
    dict(id="P01-move-by-name", property="P01",
         edits=[(CI, "for e in element.parent.remove_element(uuid=element.uuid):  ", "for e in element.parent.remove_element(element.id_name):  ")],
         needs="moving an element that has a same-named sibling into another container",
         breaks="the sibling is removed from the hierarchy as well", demo=PRE + '''
r, q = node("r"), node("q")
a, b, c = node("x", r), node("x", r), node("y", r)
q.add_element(a)
check([e.id_name for e in r.get_subelements(lambda e: True)] == ["x", "y"] and b.parent is r, "the sibling of a moved element is lost")
'''),
    dict(id="P02-depth-after-update", property="P02",
         edits=[(CI, '''            element._depth = self._depth + 1
            # Subelement count increment
            self._cnt_subelements += 1
            # All-ever created subelement count
            self._cnt_subelements_historical += 1
            # Update subelements as well
            self.__update_element(element)
''', '''            # Subelement count increment
            self._cnt_subelements += 1
            # All-ever created subelement count
            self._cnt_subelements_historical += 1
            # Update subelements as well
            self.__update_element(element)
            element._depth = self._depth + 1
''')],
         needs="adding an element that already has sub-elements below a container",
         breaks="the depth of the elements below it stays as it was", demo=PRE + '''
r, a, m = node("r"), node("a"), node("m")
b = node("b", a)
c = node("c", b)
m.add_element(a)
r.add_element(m)
check([x.depth for x in (r, m, a, b, c)] == [0, 1, 2, 3, 4], "depths after adding a subtree")
'''),
    dict(id="P03-index-popitem", property="P03",
         edits=[(CI, "self._index_elements_by_name[el.id_name].pop(uuid)\n                # Invalidate element parent",
                 "self._index_elements_by_name[el.id_name].popitem()\n                # Invalidate element parent")],
         needs="removing, by identifier, an element that is not the latest of several same-named ones",
         breaks="lookup by name yields the removed element and misses the remaining one", demo=PRE + '''
r = node("r")
a, b = node("x", r), node("x", r)
list(r.remove_element(uuid=a.uuid))
check(list(r.get_element_by_id_name("x")) == [b], "lookup after removing the first of two same-named elements")
'''),
    dict(id="P04-index-before-refusal", property="P04",
         edits=[(CI, '''        # Add as unique element
        if element.uuid not in self._sub_elements:
            self._sub_elements[element.uuid] = element
        else:
            raise ErrorDuplicateElement
        # Set the parent of the element
        if element.parent is not self:
            # Index by names (multiple names can exist, add them as a list)
            if element.id_name not in self._index_elements_by_name:
                self._index_elements_by_name[element.id_name] = {}
            self._index_elements_by_name[element.id_name][element.uuid] = element
''', '''        # Index by names (multiple names can exist, add them as a list)
        if element.id_name not in self._index_elements_by_name:
            self._index_elements_by_name[element.id_name] = {}
        self._index_elements_by_name[element.id_name][element.uuid] = element
        # Add as unique element
        if element.uuid not in self._sub_elements:
            self._sub_elements[element.uuid] = element
        else:
            raise ErrorDuplicateElement
        # Set the parent of the element
        if element.parent is not self:
''')],
         needs="adding an element whose identifier is already taken by another element of the container",
         breaks="the refused element is found by name afterwards", demo=PRE + '''
r = node("r")
a, twin = node("x", r, b"same"), node("y", None, b"same")
try:
    r.add_element(twin)
    check(False, "twin accepted")
except Exception:
    pass
check(list(r.get_element_by_id_name("y")) == [], "a refused element is found by name")
'''),
    dict(id="P04-twin-replaces", property="P04",
         edits=[(CI, "        if element.uuid not in self._sub_elements:\n            self._sub_elements[element.uuid] = element",
                 "        if self._sub_elements.get(element.uuid) is not element:\n            self._sub_elements[element.uuid] = element")],
         needs="adding a second element with the identifier of an element of the container",
         breaks="the operation is not refused and the element there before is lost", demo=PRE + '''
r = node("r")
a, twin = node("x", r, b"same"), node("y", None, b"same")
try:
    r.add_element(twin)
    check(False, "an element with a taken identifier was accepted")
except Exception as e:
    if isinstance(e, SystemExit): raise
check(r[b"same"] is a, "lost")
'''),
    dict(id="P05-restart-when-empty", property="P05",
         edits=[(CI, "            element.cid = self._cnt_subelements_historical\n",
                 "            if self._cnt_subelements == 0:\n                self._cnt_subelements_historical = 0\n"
                 "            element.cid = self._cnt_subelements_historical\n"),
                (CI, "        # Subelement count\n        self._cnt_subelements = 0\n", "        # Subelement count (ordinals start with it)\n        self._cnt_subelements = 0\n")],
         needs="a container that becomes empty and gets a new element",
         breaks="ordinals start again from zero", demo=PRE + '''
r = node("r")
a = node("a", r)
list(r.remove_element(uuid=a.uuid))
c = node("c", r)
check(c.cid == 1, "ordinal %d handed out twice" % c.cid)
'''),
    dict(id="P05-refusal-burns-ordinal", property="P05",
         edits=[(CI, '''        # Add as unique element
        if element.uuid not in self._sub_elements:
''', '''        # All-ever created subelement count
        self._cnt_subelements_historical += 1
        # Add as unique element
        if element.uuid not in self._sub_elements:
'''), (CI, "            element.cid = self._cnt_subelements_historical\n", "            element.cid = self._cnt_subelements_historical - 1\n"),
                (CI, '''            # All-ever created subelement count
            self._cnt_subelements_historical += 1
            # Update''', '''            # Update''')],
         needs="a refused (duplicate) addition between two accepted ones",
         breaks="the ordinal is not the number of accepted attachments", demo=PRE + '''
r = node("r")
a = node("a", r)
try:
    r.add_element(a)
except Exception:
    pass
b = node("b", r)
check(b.cid == 1, "ordinal %d after one accepted attachment" % b.cid)
'''),
    dict(id="P07-monotonic-stamp", property="P07",
         edits=[(CI, "            self._timestamp = self._clock.get_time_ns()\n",
                 "            self._timestamp = max(getattr(self, '_timestamp', 0), self._clock.get_time_ns())\n")],
         needs="a clock that runs backwards between creating and moving an element",
         breaks="the timestamp is a stale reading, not one taken when the element changed its place", demo=PRE + '''
clock = Clock([100, 100, 90] + [5] * 20)
r, a = node("r"), node("a")
r.add_element(a)
list(r.remove_element(uuid=a.uuid))
check(a.timestamp == 5, "timestamp %d is not a reading of the removal" % a.timestamp)
'''),
]
