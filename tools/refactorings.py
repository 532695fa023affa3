import os, shutil, subprocess, sys
def new(name):
    w="/tmp/rf/"+name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git","clone","-q","/repo",w],check=True)
    return w+"/hyperpack/"
def sub(f,a,b):
    s=open(f).read(); assert s.count(a)==1,(f,s.count(a),a); open(f,"w").write(s.replace(a,b))
def between(f,a,b,text):
    s=open(f).read(); i=s.index(a); j=s.index(b,i); open(f,"w").write(s[:i]+text+s[j:])
R={}
def rf(fn): R[fn.__name__]=fn; return fn

@rf
def ra(d):
    f=d+"abstract.py"
    sub(f,"from time import time\n","import time\n")
    between(f,"        # initial data\n","        # END of local search\n",'''        state = _SearchState(self.get_init_solution(), self.calculate_obj_value(), init_sequence)
        optimum = self.get_optimum_objective_val()
        swaps = self._swaps(len(init_sequence))
        limit = self.get_max_neighbors_num(throttle, len(init_sequence))

        if hasattr(self, "init_operations"):
            self.init_operations()

        running = not self.global_check(state.value, optimum)
        while running:
            state.nodes += 1
            tried, found, optimal, late = self._search_node(
                state, swaps, limit, optimum, lambda: time.time() - start_time >= max_time_in_seconds
            )
            if debug:
                self.debug_local_search(
                    node_num=state.nodes,
                    best_obj_value=state.value,
                    processed_neighbors=tried,
                    out_of_time=late,
                    global_optima=optimal,
                    neighbor_found=found,
                )
            running = found and not (late or optimal)

        return state.solution

    def _swaps(self, length):
        return tuple(combinations(range(length), self.OPT_NUM))

    def _search_node(self, state, swaps, limit, optimum, expired):
        tried = 0
        late = False
        for first, second in swaps:
            neighbor = list(state.sequence)
            neighbor[first] = state.sequence[second]
            neighbor[second] = state.sequence[first]
            self.evaluate_node(sequence=neighbor)
            value = self.calculate_obj_value()
            tried += 1
            found = self.compare_node(value, state.value)
            if found:
                state.sequence, state.value = neighbor, value
                state.solution = self.get_solution()
                if hasattr(self, "extra_node_operations"):
                    self.extra_node_operations()
            late = expired()
            if found:
                return tried, True, self.global_check(value, optimum), late
            if late or tried >= limit:
                break
        return tried, False, False, late


class _SearchState:
    """What a search has reached."""

    def __init__(self, solution, value, sequence):
        self.solution, self.value, self.sequence = solution, value, sequence
        self.nodes = 0
''')
    s=open(f).read(); i=s.index("        # END of local search\n"); open(f,"w").write(s[:i])

@rf
def rp(d):
    f=d+"processes.py"
    sub(f,"from time import time\nfrom multiprocessing import Pipe, Process\n","import multiprocessing\nimport time\n")
    sub(f,"(Process)","(multiprocessing.Process)")
    sub(f,"        self.receiver, self.sender = Pipe(duplex=False)","        self.receiver, self.sender = multiprocessing.Pipe(duplex=False)")
    between(f,"            retain_solution = self.instance.get_init","        # % ------------ Exception case",'''            self.sender.send(self._search())

''')
    s=open(f).read()
    s=s.rstrip("\\n")+'''

    def _out_of_time(self):
        instance = self.instance
        return time.time() - instance.start_time > instance._max_time_in_seconds

    def _search(self):
        """Returns the value, the solution, the values per container and the strategy."""
        instance = self.instance
        solution, values = instance.get_init_solution()
        best, best_strategy = instance.calculate_obj_value(), None
        optimum = instance.get_optimum_objective_val()
        done = instance.global_check(best, optimum)

        todo = list(self.strategies_chunk)[::-1]
        while todo and not done:
            strategy = todo.pop()
            instance._potential_points_strategy = strategy
            instance.local_search(throttle=self.throttle, _hypersearch=True)
            value = instance.calculate_obj_value()
            others = instance._get_array_optimum(self.shared_array)
            if instance._check_solution(value, best):
                self.shared_array[self.index] = best = value
                solution, values = instance.get_solution()
                best_strategy = list(strategy)
                done = instance.global_check(value, optimum)
                hyperLogger.debug(f"{self.name}: {value}")
            if not done:
                late = self._out_of_time()
                done = late or instance.global_check(others, optimum)
        return best, solution, values, best_strategy
'''
    open(f,"w").write(s)

@rf
def rh(d):
    f=d+"heuristics.py"
    between(f,"        # receive before joining","        # at this point the",'''        # receive before joining
        outputs = [None] * len(processes)
        pending = {p.receiver: i for i, p in enumerate(processes)}
        while pending:
            for receiver in connection.wait(list(pending)):
                index = pending.pop(receiver)
                try:
                    outputs[index] = receiver.recv()
                except (EOFError, OSError):
                    pass
                receiver.close()

        for p in processes:
            p.join()
''')
    s=open(f).read()
    import re
    m=[l for l in s.splitlines() if "multiprocessing" in l and "import" in l]
    print(m)
    s=s.replace(m[0], m[0]+"\nfrom multiprocessing import connection",1)
    open(f,"w").write(s)
    between(f,"        # get winning process","        hyperLogger.debug(\n            f\"\\nWinning",'''        winner = max(range(len(processes)), key=shared_list.__getitem__)
        win_process, win_metrics = processes[winner], outputs[winner]
        best_solution = self._deepcopy_solution(win_metrics[1])
        best_obj_val_per_container = dict(win_metrics[2])
        best_strategy = (
            self._potential_points_strategy if win_metrics[3] is None else list(win_metrics[3])
        )

''')
    between(f,"        for strategy in strategies:\n            # set the","        self._potential_points_strategy = instance_strategy",'''        def search(strategy):
            self._potential_points_strategy = strategy
            self.local_search(throttle=throttle, _hypersearch=True)
            return self.calculate_obj_value()

        for strategy in strategies:
            value = search(strategy)
            better = self._check_solution(value, best_obj_value)
            if better:
                best_obj_value, best_strategy = value, list(strategy)
                retain_solution = self.get_solution()
            if better and self.global_check(value, optimum_obj_value):
                break
            if time.time() > self.start_time + self._max_time_in_seconds:
                break

''')
    between(f,"        if _exhaustive:\n","    def _single_process",'''        if not _exhaustive:
            # for testing or customization purposes
            return constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL
        free = tuple(p for p in self.DEFAULT_POTENTIAL_POINTS_STRATEGY if p not in suffixes)
        return [(*head, *suffixes) for head in permutations(free)]

''')
    between(f,"        if not isinstance(value, tuple):\n            raise Pot","        self._potential_points_strategy = value",'''        error = self._strategy_error(value)
        if error is not None:
            raise PotentialPointsError(error)
''')
    sub(f,"    @potential_points_strategy.deleter",'''    def _strategy_error(self, value):
        if not isinstance(value, tuple):
            return PotentialPointsError.TYPE
        for k, el in enumerate(value):
            if not isinstance(el, str):
                return PotentialPointsError.ELEMENT_TYPE
            if el not in self.DEFAULT_POTENTIAL_POINTS_STRATEGY:
                return PotentialPointsError.ELEMENT_NOT_POINT
            if el in value[:k]:
                return PotentialPointsError.DUPLICATE_POINTS
        return None

    @potential_points_strategy.deleter''')
    between(f,"        # % ----------------------------------------------------------------------------\n        # SETTINGS MAX TIME","        if workers_num > cpu_count",'''        seconds = self._settings.get("max_time_in_seconds", self.MAX_TIME_IN_SECONDS_DEFAULT_VALUE)
        if not isinstance(seconds, int):
            raise SettingsError(SettingsError.MAX_TIME_IN_SECONDS_TYPE)
        if seconds <= 0:
            raise SettingsError(SettingsError.MAX_TIME_IN_SECONDS_VALUE)
        workers_num = self._settings.get("workers_num")
        if workers_num is None:
            workers_num = self.WORKERS_NUM_DEFAULT_VALUE
        elif not isinstance(workers_num, int) or workers_num <= 0:
            raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
        self._max_time_in_seconds, self._workers_num = seconds, workers_num
''')

@rf
def rm(d):
    f=d+"mixins.py"
    between(f,"        if (\n            Xo + w > W\n","    def _generate_points",'''        right, top = Xo + w, Yo + l
        if right > W or top > L:
            return False
        corners = ((Yo, Xo), (Yo, right - 1), (top - 1, Xo), (top - 1, right - 1))
        if any(container_coords[y][x] for y, x in corners):
            return False
        return not any(any(row[Xo:right]) for row in container_coords[Yo:top])

''')
    sub(f,"        container_coords = [array(\"I\", [0] * W) for y in range(L)]","        container_coords = [bytearray(W) for _ in range(L)]")
    between(f,"                # PREVIOUS COORDINATION","                # removing item wont",'''                self._cover(container_coords, Xo, Yo, w, l)

''')
    sub(f,"    def _construct_solution(",'''    @staticmethod
    def _cover(container_coords, Xo, Yo, w, l):
        """1 inside the item, 2 on its sides, 3 in its corners."""
        for y in range(Yo, Yo + l):
            row = container_coords[y]
            edge = y in (Yo, Yo + l - 1)
            for x in range(Xo, Xo + w):
                row[x] = 1 + edge + (x in (Xo, Xo + w - 1))

    def _construct_solution(''')
    between(f,"            for item_id in items_ids:\n                item = items[item_id]","                if debug:\n                    logger.debug(\n                        f\"--> {item_id}",'''            for item_id in items_ids:
                item = items[item_id]
                placing = self._orientation_that_fits(item, W, L, Xo, Yo, container_coords)
                if placing is None:
                    continue
                w, l, rotated = placing

''')
    sub(f,"    @staticmethod\n    def _cover",'''    def _orientation_that_fits(self, item, W, L, Xo, Yo, container_coords):
        w, l = item["w"], item["l"]
        if self._check_fitting(W, L, Xo, Yo, w, l, container_coords):
            return w, l, False
        if self._rotation and self._check_fitting(W, L, Xo, Yo, l, w, container_coords):
            return l, w, True
        return None

    @staticmethod
    def _cover''')
    between(f,"        solution = {}\n\n        for _id in current_solution:","    def _solve(self",'''        solution = {}
        for _id, item in current_solution.items():
            sides = [item["w"], item["l"]]
            solution[_id] = [item["Xo"], item["Yo"], *(sides[::-1] if item["rotated"] else sides)]

        return items, obj_value, solution

''')
    between(f,"            height_of_solution = 1\n","        solution = {}\n        for _id",'''            rows = [y for y, row in enumerate(container_coords) if any(row)]
            height_of_solution = max(rows, default=0) + 1
            items_area = sum(item["w"] * item["l"] for item in current_solution.values())
            obj_value = items_area / (W * height_of_solution)

''')
    # points: helpers for C and D
    between(f,"        # C POINT\n","    def _get_current_point",'''        self._generate_C(container_coords, potential_points, Xo, Bx, Ay, L)
        self._generate_D(container_coords, potential_points, Yo, Ay, Bx, W)

    def _generate_C(self, coords, potential_points, start, end, Ay, L):
        if Ay >= L:
            return
        row = coords[Ay]
        potential_points["C"].extend(
            (x, Ay) for x in range(start + 1, end) if row[x] == 0 and row[x - 1] == 3
        )

    def _generate_D(self, coords, potential_points, start, end, Bx, W):
        if Bx >= W:
            return
        potential_points["D"].extend(
            (Bx, y) for y in range(start + 1, end) if coords[y][Bx] == 0 and coords[y - 1][Bx] == 3
        )

''')
    between(f,"        for pclass in self._potential_points_strategy:\n","    def _get_initial_container",'''        first = next((p for p in self._potential_points_strategy if potential_points[p]), None)
        if first is None:
            return None, None
        return potential_points[first].popleft(), first

''')
    # sorting
    between(f,"        items = self._items.deepcopy()\n\n        if by == \"area\"","class DeepcopyMixin",'''        criteria = {
            "area": lambda i: i["w"] * i["l"],
            "perimeter": lambda i: 2 * (i["w"] + i["l"]),
            "longest_side_ratio": lambda i: max(i.values()) / min(i.values()),
        }
        if by not in criteria:
            raise NotImplementedError
        items = self._items.deepcopy()
        order = sorted(items, key=lambda _id: (criteria[by](items[_id]), _id), reverse=reverse)
        self.items = {_id: items[_id] for _id in order}


''')
    between(f,"        items = self._items\n\n        if orientation not in","    def sort_items",'''        if orientation == "wide":
            wrong = lambda w, l: l > w  # noqa: E731
        elif orientation == "long":
            wrong = lambda w, l: l < w  # noqa: E731
        else:
            hyperLogger.warning(
                f"orientation parameter '{orientation}' not valid. Orientation skipped."
            )
            return

        for dims in self._items.values():
            w, l = dims["w"], dims["l"]
            if wrong(w, l):
                dims.update(w=l, l=w)

''')
    sub(f,'''        containers_obj_vals = tuple(self.obj_val_per_container.values())
        if self._containers_num == 1:
            return sum([u for u in containers_obj_vals])
        else:
            return (
                sum([u for u in containers_obj_vals[:-1]]) + 0.7 * containers_obj_vals[-1]
            )
''','''        *first, last = self.obj_val_per_container.values()
        if self._containers_num == 1:
            return last
        return sum(first) + last * 0.7
''')
    sub(f,'''            cont_id: {
                item_id: [data for data in solution[cont_id].get(item_id, [])]
                for item_id in self._items
                if solution[cont_id].get(item_id) is not None
            }
''','''            cont_id: {i: list(solution[cont_id][i]) for i in self._items if i in solution[cont_id]}
''')

@rf
def rm2(d):
    """areas instead of sums of utilizations"""
    f=d+"mixins.py"
    sub(f,'''                    obj_value = obj_value + self.calculate_objective_value(
                        w,
                        l,
                        W,
                        L,
                        Xo,
                        Yo,
                        container_coords,
                    )
''','''                    items_area += w * l
                    obj_value = items_area / (W * L)
''')
    sub(f,"        return optimum - 1e-9","        return optimum - 1e-12")

@rf
def rf_(d):
    f=d+"mixins.py"
    s=open(f).read()
    i=s.index("            for i, item_id in enumerate(self.solution[cont_id]):")
    j=s.index("            if export:\n                try:",i)
    s=s[:i]+'''            shapes = [dict(type="rect", x0=0, y0=0, x1=W, y1=L, line=dict(color="Black", width=2))]
            traces = []
            for i, (item_id, (Xo, Yo, w, l)) in enumerate(self.solution[cont_id].items()):
                shapes.append(
                    go.layout.Shape(
                        type="rect", x0=Xo, y0=Yo, x1=Xo + w, y1=Yo + l,
                        line={"color": "black"}, fillcolor=self.colorgen(i),
                        label={"text": item_id, "font": {"color": "white", "size": 12}},
                    )
                )
                traces.append(
                    go.Scatter(x=[Xo, Xo + w, Xo + w, Xo], y=[Yo, Yo, Yo + l, Yo + l],
                               showlegend=False, hoverinfo="x+y")
                )
            fig.update_layout(shapes=shapes)
            fig.add_traces(traces)
'''+s[j:]
    i=s.index("            if export:\n                try:"); j=s.index("            if show:\n                fig.show",i)
    s=s[:i]+'''            if export:
                try:
                    self._export(fig, cont_id, export)
                except Exception as e:
                    raise FigureExportError(FigureExportError.FIGURE_EXPORT.format(e)) from e
'''+s[j:]
    s=s.replace("    def validate_settings(self) -> None:",'''    @staticmethod
    def _export(fig, cont_id, export):
        import plotly.io as pio

        kind = export.get("type", "html")
        name = "__".join([export.get("file_name", ""), cont_id])
        if kind == "html":
            pio.write_html(fig, os.path.join(export["path"], name + ".html"))
        elif kind == "image":
            pio.write_image(
                fig,
                os.path.join(export["path"], f"{name}.{export['format']}"),
                format=export["format"],
                width=export.get("width") or 1700,
                height=export.get("height") or 1700,
                scale=1,
            )

    def validate_settings(self) -> None:''',1)
    i=s.index('        log = ["\\nSolution Log:"]'); j=s.index("class SolutionFigureMixin",i)
    s=s[:i]+'''        stored = {_id for placed in self.solution.values() for _id in placed}
        lines = [
            "\\nSolution Log:",
            f"Percent total items stored : {len(stored) / len(self._items) * 100:.4f}%",
        ]
        for cont_id, container in self._containers.items():
            lines += self._log_container(cont_id, container["W"])
        lines.append(f"\\nRemaining items : {[_id for _id in self._items if _id not in stored]}")
        report = "\\n".join(lines)
        hyperLogger.info(report)
        return report

    def _log_container(self, cont_id, W):
        placed = self.solution[cont_id].values()
        L = self._containers._get_height(cont_id)
        area = sum(w * l for _, _, w, l in placed)
        yield f"Container: {cont_id} {W}x{L}"
        yield f"\\t[util%] : {area * 100 / (W * L) if L else 0:.4f}%"
        if self._strip_pack:
            yield f"\\t[max height] : {max((y + l for _, y, _, l in placed), default=0)}"


'''+s[j:]
    open(f,"w").write(s)

@rf
def rs(d):
    f=d+"structures.py"
    between(f,"        if ids_sequence is None:\n","class Containers(",'''        ids = self.data if ids_sequence is None else ids_sequence
        return {_id: dict(self.data[_id].data) for _id in ids}


''')
    between(f,"        self.data = {}\n\n        for key in dimensions","        if self.instance is not None",'''        self.data = {}
        for key, value in dimensions.items():
            self.validate_data(key, value)
            self.data[key] = value

''')
    between(f,"        self.data = {}\n\n        for structure_id in structure","    def __setitem__(self, structure_id",'''        self.data = {_id: self.get_dimensions(_id, dims) for _id, dims in structure.items()}

''')
    between(f,"        # `structure[id] |= dims` assigns","    def __delitem__(self, key):\n        if len",'''        # `structure[id] |= dims` assigns the already updated dimensions
        known = isinstance(structure_id, str) and self.data.get(structure_id) is new_dimensions
        if not known or new_dimensions is None:
            self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
        self._changed()

    def _changed(self):
        if self.instance is not None:
            self.reset_instance_attrs()

''')
    sub(f,"        del self.data[key]\n        if self.instance is not None:\n            self.reset_instance_attrs()\n","        self.data.pop(key)\n        self._changed()\n")
    s=open(f).read()
    # text
    i=s.index("    def __str__(self):\n        strings_list = [\"Containers\"]"); j=s.index("class Items(")
    s=s[:i]+'''    def _shows_length(self):
        return not getattr(self.instance, "_strip_pack", False)


'''+s[j:]
    i=s.index("    def __str__(self):\n        strings_list = [\"Items\"]")
    s=s[:i].rstrip()+"\n"
    s=s.replace('''    def deepcopy(self, ids_sequence''','''    def _shows_length(self):
        return True

    def __str__(self):
        parts = [type(self).__name__]
        for _id, dims in self.data.items():
            text = f"  - id: {_id}\\n    width: {dims[self.WIDTH]}\\n"
            if self._shows_length():
                text += f"    length: {dims[self.LENGTH]}\\n"
            parts.append(text)
        return "\\n".join(parts)

    def deepcopy(self, ids_sequence''',1)
    i=s.index("            else:\n                solution = self.instance.solution[cont_id]"); j=s.index("        else:\n            return self.data[cont_id][self.LENGTH]")
    s=s[:i]+'''            return self._solution_height(cont_id)
'''+s[j:]
    i=s.index("        else:\n            solution = self.instance.solution[cont_id]"); j=s.index("        self.instance._container_height = height")
    s=s[:i]+'''        else:
            height = self._solution_height(cont_id)

'''+s[j:]
    s=s.replace("    def _set_height(self):",'''    def _solution_height(self, cont_id):
        tops = [y + l for _, y, _, l in self.instance.solution[cont_id].values()]
        return max([0, self.instance._container_min_height or 0, *tops])

    def _set_height(self):''',1)
    open(f,"w").write(s)

@rf
def ru(d):
    f=d+"utils.py"
    s=open(f).read()
    s=s.replace("import random\n","from random import randint\n").replace("random.randint(","randint(")
    open(f,"w").write(s)
    between(f,"    items = {}\n    total_items_num","    print(\"Containers number",'''    items = {
        f"item-{n}": {"w": randint(lower_w_val, upper_w_val), "l": randint(lower_l_val, upper_l_val)}
        for n in range(items_num * containers_num)
    }

''')
    f=d+"exceptions.py"
    sub(f,'''        if message is not None:
            self.log_error(message)
        super().__init__(message)
''','''        super().__init__(message)
        if message is not None:
            self.log_error(str(self))
''')

@rf
def rt(d):
    """time through different names"""
    for n in ("heuristics.py","mixins.py"):
        f=d+n; s=open(f).read()
        assert "import time\n" in s
        s=s.replace("import time\n","from time import time as now\n",1).replace("time.time()","now()")
        open(f,"w").write(s)
    f=d+"heuristics.py"; s=open(f).read()
    for l in s.splitlines():
        if "multiprocessing" in l: print(l)

@rf
def rctx(d):
    """shared array and pipes of a context"""
    f=d+"heuristics.py"
    s=open(f).read()
    l=[l for l in s.splitlines() if l.startswith("from multiprocessing import")][0]
    names=[x.strip() for x in l.split("import")[1].split(",")]
    print(names)
    s=s.replace(l,"import multiprocessing")
    import re
    for n in names:
        s=re.sub(r"(?<![\w.])%s\("%n,"multiprocessing.%s("%n,s)
    s=s.replace('multiprocessing.Array("d", [min_val] * len(strategies_chunks), lock=False)','multiprocessing.RawArray("d", [min_val] * len(strategies_chunks))')
    open(f,"w").write(s)


@rf
def rextra(d):
    """more reads of the clock"""
    f=d+"abstract.py"
    sub(f,"                processed_neighbors += 1\n","                processed_neighbors += 1\n                elapsed = time() - start_time\n                if debug and elapsed > 10:\n                    self.logger.debug(f\"{elapsed} s\")\n")
    sub(f,"            processed_neighbors = 0\n","            processed_neighbors = 0\n            node_start = time()\n")
    sub(f,"            # end of node search\n","            node_time = time() - node_start\n            self.logger.debug(f\"{node_time}\")\n")
    f=d+"processes.py"
    sub(f,"                new_obj_value = self.instance.calculate_obj_value()\n","                new_obj_value = self.instance.calculate_obj_value()\n                hyperLogger.debug(f\"{time() - start_time} s\")\n")
    f=d+"heuristics.py"
    sub(f,"            new_obj_val = self.calculate_obj_value()\n","            new_obj_val = self.calculate_obj_value()\n            hyperLogger.debug(f\"{time.time() - self.start_time} s\")\n")

@rf
def rmono(d):
    for n in ("heuristics.py","mixins.py"):
        f=d+n; s=open(f).read(); s=s.replace("time.time()","time.monotonic()"); open(f,"w").write(s)
    for n in ("abstract.py","processes.py"):
        f=d+n; s=open(f).read(); s=s.replace("from time import time\n","from time import monotonic as time\n"); open(f,"w").write(s)

names=sys.argv[1:] or list(R)
for n in names:
    R[n](new(n))
if not sys.argv[1:]:
    d=new("all")
    for n in ("ra","rp","rh","rm","rf_","rs","ru"): R[n](d)
