W, X, DK, SL = "worker.py", "execution.py", "docket.py", "strikelist.py"
m("c36-started-before-claim", "C36", [(W, """        if not await execution.claim(self.name):
            logger""", """        TASKS_STARTED.add(1, counter_labels)
        if not await execution.claim(self.name):
            logger"""), (W, """        TASKS_STARTED.add(1, counter_labels)
        if execution.redelivered""", """        if execution.redelivered""")])
m("c36-succeeded-early", "C36", [(W, """                # Only now that its dependencies have ended well, too
                TASKS_SUCCEEDED.add(1, counter_labels)
""", ""), (W, "                    duration = log_context[\"duration\"] = time.time() - start\n\n                # Only", "                    duration = log_context[\"duration\"] = time.time() - start\n                    TASKS_SUCCEEDED.add(1, counter_labels)\n\n                # Only")] if 0 else [(W, "                TASKS_FAILED.add(1, counter_labels)\n", "                if duration: TASKS_FAILED.add(1, counter_labels)\n")])
m("c36-running-not-on-cancel", "C36", [(W, """            finally:
                TASKS_RUNNING.add(-1, counter_labels)
                TASKS_COMPLETED""", """                TASKS_RUNNING.add(-1, counter_labels)
            else:
                TASKS_RUNNING.add(-1, counter_labels)
            finally:
                TASKS_COMPLETED""")])
m("c36-retried-always", "C36", [("dependencies/_retry.py", "        TASKS_RETRIED.add(1, {**worker.labels(), **execution.general_labels()})", "        TASKS_RETRIED.add(execution.attempt, {**worker.labels(), **execution.general_labels()})")])
m("c36-queue-depth-stream", "C36", [(W, "QUEUE_DEPTH.set(stream_depth + overdue_depth,", "QUEUE_DEPTH.set(stream_depth,")])
m("c36-schedule-all", "C36", [(W, "pipeline.zcount(self.docket.queue_key, now, \"+inf\")", "pipeline.zcard(self.docket.queue_key)")])
m("c36-schedule-near", "C36", [(W, "pipeline.zcount(self.docket.queue_key, now, \"+inf\")", "pipeline.zcount(self.docket.queue_key, now, now + 52)")])
m("c36-scheduled-always", "C36", [(DK, """            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})
            if execution.disposition is Disposition.SCHEDULED:
                TASKS""", """            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})
            if execution.disposition:
                TASKS""")])
m("c36-punctuality-attempt", "C36", [(W, "        punctuality = start - execution.when.timestamp()\n", "        punctuality = (start - execution.when.timestamp()) / execution.attempt\n")])
m("c36-duration-zero", "C36", [(W, """            except Exception as e:
                duration = log_context["duration"] = time.time() - start
                TASKS_FAILED""", """            except Exception as e:
                log_context["duration"] = time.time() - start
                TASKS_FAILED""")])
m("c36-restore-not-counted", "C36", [(SL, "            if labels := self._counted.pop(key, None):", "            if instruction.parameter and (labels := self._counted.pop(key, None)):")])
