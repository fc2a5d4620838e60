W, X, DK, SL, AN, TE = "worker.py", "execution.py", "docket.py", "strikelist.py", "annotations.py", "testing.py"
RT, PP, CC = "dependencies/_retry.py", "dependencies/_perpetual.py", "dependencies/_concurrency.py"
m("c37-kwargs-all", "C37", [(X, '                arguments.append(f"{parameter_name}=...")', '                arguments.append(f"{parameter_name}={argument!r}" if self.attempt > 1 else f"{parameter_name}=...")')])
m("c37-superseded-args", "C37", [(W, '            logger.info("↬ %s (superseded)", call, extra=log_context)', '            logger.info("↬ %s (superseded) %r", call, execution.kwargs, extra=log_context)')])
m("c37-extra-args", "C37", [(W, "        log_context = {**log_context, \"punctuality\": punctuality}", "        log_context = {**log_context, \"punctuality\": punctuality, \"kwargs\": execution.kwargs if execution.redelivered else None}")])
m("c37-len-non-list", "C37", [(AN, '                elif hasattr(argument, "__len__"):', '                elif isinstance(argument, (list, str, bytes)):')])
m("c37-len-dict", "C37", [(AN, '                if isinstance(argument, (dict, set)):', '                if isinstance(argument, set):'), (AN, '                elif hasattr(argument, "__len__"):', '                elif hasattr(argument, "append") or isinstance(argument, str):')])
m("c37-cache-name", "C37", [(AN, "        key = (cls, signature)\n", "        key = (cls, tuple(signature.parameters))  # type: ignore\n")])
m("c37-broken-repr-args", "C37", [(AN, '            return f"<{type(argument).__name__}>"', '            raise')])
m("c37-any-annotated", "C37", [(AN, "                elif isinstance(arg_type, type) and issubclass(arg_type, cls):", "                elif isinstance(arg_type, type):")])
m("c37-parameter-order", "C37", [(X, "        for parameter_name, argument in zip(positional, self.args):", "        for parameter_name, argument in zip(sorted(positional, key=lambda n: n not in logged_parameters) if len(self.args) > 2 else positional, self.args):")])
m("c37-blocked-repr", "C37", [(W, '                            "⏳ Task %s blocked by admission control, rescheduling",\n                            e.execution.key,', '                            "⏳ Task %s blocked by admission control, rescheduling %s",\n                            e.execution.key, e.execution.args,')])
m("c37-dropping", "C37", [(W, '                            "⏭ Task %s blocked by admission control, dropping",\n                            e.execution.key,', '                            "⏭ Task %s blocked by admission control, dropping %s",\n                            e.execution.key, e.execution.kwargs,')])
m("c37-strike-value", "C37", [(SL, "                type(value).__name__,", "                value,")])
m("c37-not-storable", "C37", [(W, '                                "Unable to store exception of %s",\n                                call,', '                                "Unable to store exception of %s",\n                                (call, execution.kwargs),')])
m("c37-retry-log", "C37", [(RT, '''            execution.call_repr(),
            exc_info=outcome.exception,''', '''            (execution.call_repr(), execution.args),
            exc_info=outcome.exception,''')])
m("c37-perp-log", "C37", [(PP, '''            execution.call_repr(),
        )

        return True''', '''            (execution.call_repr(), self.kwargs if self.kwargs else execution.kwargs),
        )

        return True''')])
m("c38-subset-key", "C38", [(TE, "            if k not in execution.kwargs or execution.kwargs[k] != v:", "            if execution.kwargs.get(k) != v:")])
m("c38-args-prefix", "C38", [(TE, "    if args is not None and execution.args != args:", "    if args is not None and execution.args[: len(args)] != args:")])
m("c38-args-empty", "C38", [(TE, "    if args is not None and execution.args != args:", "    if args and execution.args != args:")])
m("c38-kwargs-any", "C38", [(TE, "            if k not in execution.kwargs or execution.kwargs[k] != v:\n                return False", "            if k in execution.kwargs and execution.kwargs[k] == v:\n                return True\n            return False")])
m("c38-count-names", "C38", [(TE, "        actual_count = sum(1 for e in all_tasks if e.function_name == function_name)", "        actual_count = len({e.key for e in all_tasks if e.function_name == function_name and e.args})")])
m("c38-notasks-due", "C38", [(TE, '''    all_tasks = list(snapshot.future)

    if all_tasks:
        found''', '''    all_tasks = [e for e in snapshot.future if e.when > snapshot.taken]

    if all_tasks:
        found''')])
m("c38-running-counted", "C38", [(TE, '''    all_tasks = list(snapshot.future)

    if function is None''', '''    all_tasks = list(snapshot.future) + list(snapshot.running)

    if function is None''')])
m("c38-snapshot-100", "C38", [(DK, "zrange(self.queue_key, 0, -1)", "zrange(self.queue_key, 0, 99)")])
