From fe4866cfbd4aa59077c9d48f4be94cca0c585800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 01/82] fix: a process terminated by a signal has terminated

Only CLD_EXITED ended a process, so a pipeline with a killed stage stayed
running for ever and every wait for it hung.
---
 pieshell/signalio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
-- 
2.43.0


From b6f9abf27f8325b9a310e146f6ac4ddf3e832066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 02/82] fix: a continued child is not reported as having dumped
 core

WCOREDUMP is only meaningful for signalled children; the status of a
continued child (0xffff) has that bit set too.
---
 pieshell/signalio/signalutils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..6f72ebf 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,17 +68,14 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
-                res["ssi_code"] = CLD_DUMPED
+            elif os.WIFSIGNALED(status):
+                res["ssi_code"] = CLD_DUMPED if os.WCOREDUMP(status) else CLD_KILLED
                 res["ssi_status"] = os.WTERMSIG(status)
-            elif os.WIFCONTINUED(status):
-                res["ssi_code"] = CLD_CONTINUED
             elif os.WIFSTOPPED(status):
                 res["ssi_code"] = CLD_STOPPED
                 res["ssi_status"] = os.WSTOPSIG(status)
-            elif os.WIFSIGNALED(status):
-                res["ssi_code"] = CLD_KILLED
-                res["ssi_status"] = os.WTERMSIG(status)
+            elif os.WIFCONTINUED(status):
+                res["ssi_code"] = CLD_CONTINUED
 
             yield res
     except OSError:
-- 
2.43.0


From 872b45d136b11f9884386a0084ccb148261f36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 03/82] fix: captured output that is not valid UTF-8 does not
 break the end of a pipeline

Reading it raised UnicodeDecodeError before the waiters were woken up, so they
hung.  Invalid bytes are now shown escaped; line ends are kept as written.
---
 pieshell/pipeline/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..cd2fff9 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -209,7 +209,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 9f398eb5c2f276ae613a44379059221ee4d2aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 04/82] fix: a function stage that raises wakes up those
 waiting for the pipeline

The exception of the stage also ended the task that was to report its end.
---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index cd2fff9..b06734c 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,10 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            pass # Reported by is_failed
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From 70c441810cea36c8920e2ba69e01a3424de7df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 05/82] fix: all waiters of a pipeline are woken up, not only
 the last one

Each wait overwrote the future of the one before, which then never returned.
---
 pieshell/pipeline/running.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b06734c..72ba645 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -33,9 +33,7 @@ class StopSignalHandler(signalio.SignalHandler):
     def handle_event(self, event):
         if self.current_pipeline is not None:
             self.current_pipeline.pipeline_suspended = True
-            if self.current_pipeline.finish_future is not None:
-                self.current_pipeline.finish_future.set_result(None)
-                self.current_pipeline.finish_future = None
+            self.current_pipeline.wake_up()
         return True
 
 stop_signal_handler = None
@@ -62,7 +60,7 @@ class PipelineSuspended(PipelineError): description = "Pipeline suspended"
 
 class RunningPipeline(object):
     def __init__(self, processes, pipeline):
-        self.finish_future = None
+        self.finish_futures = []
         self.processes = processes
         self.pipeline = pipeline
         self.pipeline_suspended = False
@@ -91,7 +89,8 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
+                    future = asyncio.get_event_loop().create_future()
+                    self.finish_futures.append(future)
                     await future
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
@@ -113,10 +112,15 @@ class RunningPipeline(object):
                 proc.handle_pipeline_finish_destructive()
             if self in self.pipeline._env.running_pipelines:
                 self.pipeline._env.running_pipelines.remove(self)
-        if self.finish_future is not None:
-            self.finish_future.set_result(None)
-            self.finish_future = None
-                
+        self.wake_up()
+
+    def wake_up(self):
+        """Makes everyone waiting for this pipeline check its state"""
+        futures, self.finish_futures = self.finish_futures, []
+        for future in futures:
+            if not future.done():
+                future.set_result(None)
+
     def remove_output_files(self):
         for proc in self.processes:
             proc.remove_output_files()
-- 
2.43.0


From 99ee71cd281e3d3ff147342d1e14f26f57e9422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 06/82] fix: the end of one wait does not make another one deaf
 to Ctrl-Z

Only one pipeline could be the current one, and any wait that ended, that of a
non-interactive pipeline included, cleared it.
---
 pieshell/pipeline/running.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 72ba645..0ec7206 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -28,12 +28,12 @@ except:
 
 class StopSignalHandler(signalio.SignalHandler):
     def __init__(self):
-        self.current_pipeline = None
+        self.waited_for = []
         signalio.SignalHandler.__init__(self, {"ssi_signo": signal.SIGTSTP})
     def handle_event(self, event):
-        if self.current_pipeline is not None:
-            self.current_pipeline.pipeline_suspended = True
-            self.current_pipeline.wake_up()
+        for pipeline in self.waited_for:
+            pipeline.pipeline_suspended = True
+            pipeline.wake_up()
         return True
 
 stop_signal_handler = None
@@ -83,9 +83,10 @@ class RunningPipeline(object):
         for process in self.processes:
             process.suspend()
     async def wait(self):
+        interactive = self.pipeline._env._interactive
         try:
-            if self.pipeline._env._interactive:
-                stop_signal_handler.current_pipeline = self
+            if interactive:
+                stop_signal_handler.waited_for.append(self)
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
@@ -100,7 +101,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if interactive:
+                stop_signal_handler.waited_for.remove(self)
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From 551392eee99d958bfd87ecf7bd77132314682d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 07/82] fix: an interrupted wait is over

Ctrl-C left the coroutine of run_interactive() pending: the pipeline stayed
the one to be suspended by the next Ctrl-Z.
---
 pieshell/pipeline/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..7129fc6 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -159,7 +159,13 @@ class Pipeline(DescribableObject):
         return pipeline
     
     def run_interactive(self):
-        return asyncio.get_event_loop().run_until_complete(self.async_run_interactive())
+        loop = asyncio.get_event_loop()
+        task = loop.create_task(self.async_run_interactive())
+        try:
+            return loop.run_until_complete(task)
+        except KeyboardInterrupt:
+            task.cancel() # Nobody waits for it any more
+            raise
         
     def __pos__(self):
         return self.run_interactive()
-- 
2.43.0


From 9de03021a6c61b6e8ecc8b0c94dc482ba7d9d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 08/82] fix: the job list only holds pipelines that have
 something left to run

cd, bg and the like stayed in running_pipelines for ever, and replaced
last_pipeline, so that fg after bg did not find the pipeline any more.
---
 pieshell/pipeline/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 7129fc6..f026255 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -149,8 +149,10 @@ class Pipeline(DescribableObject):
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
-        self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if processes: # Some builtins do all their work right away
+            self._env.last_pipeline = pipeline
+        if pipeline.is_running:
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From 08a16b4c9062874929599aaccf43bf6edf99c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 09/82] fix: fg of a pipeline that fails or is suspended again
 ends

The exception of the wait for the wrapped pipeline ended the task that was to
wake up fg.  restart() and suspend() of fg act on the pipeline it stands for,
so that it can be continued by another fg.
---
 pieshell/pipeline/builtins.py | 21 +++++++++++++++++++--
 pieshell/pipeline/running.py  |  6 ++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..740a466 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -64,10 +64,27 @@ class RunnningFg(running.BaseRunningItem):
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
+    @property
+    def exit_code(self):
+        return self.wrapped_pipeline.exit_code
+    def restart(self):
+        self.wrapped_pipeline.restart()
+    def suspend(self):
+        self.wrapped_pipeline.suspend()
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
+        try:
+            await self.wrapped_pipeline.wait()
+        except (running.PipelineError, KeyboardInterrupt):
+            pass # Reported by is_failed and is_running
+        if self.is_running:
+            self.running_pipeline.pipeline_suspended = True
+            self.running_pipeline.wake_up()
+            await self.wrapped_pipeline.wait_finished()
         self.running_pipeline.handle_finish()
-    
+    def __repr__(self, display_output=False):
+        return "\n".join(proc.__repr__(display_output=display_output)
+                         for proc in self.wrapped_pipeline.processes)
+
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
     """
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 0ec7206..f379007 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -105,6 +105,12 @@ class RunningPipeline(object):
                 stop_signal_handler.waited_for.remove(self)
     def __await__(self):
         return self.wait().__await__()
+    async def wait_finished(self):
+        """Waits for the pipeline to end, without continuing it"""
+        while self.is_running:
+            future = asyncio.get_event_loop().create_future()
+            self.finish_futures.append(future)
+            await future
     def handle_finish(self):
         if not self.is_running and not self.finished:
             self.finished = True
-- 
2.43.0


From 9616004d7d829ee98e824a6c09dae4ff6ca81cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 10/82] fix: redirections can share a source or find their
 target closed

Moving a source closed it although another redirection had it as its source,
too; a file opened right at the number it was meant for tripped an assertion.
---
 pieshell/redir.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..fb65987 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,10 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            # The number was free, and the file has been opened right there
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
@@ -112,9 +115,10 @@ class Redirect(object):
         self = Redirect(self)
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
+            # The old number stays open, several redirects can have the
+            # same source. It is replaced by perform(), or closed by
+            # close_other_fds().
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
-- 
2.43.0


From ab5315b7d80dc6ffc29c1632ec142d0682dac50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 11/82] fix: a program is not run when one of its redirections
 failed

The error was only logged, and the program started with the redirections that
had worked so far and all other descriptors of the caller.
---
 pieshell/redir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index fb65987..2b4bdae 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -215,6 +215,7 @@ class Redirects(object):
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
+            raise
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From ead76b18339680cc0d68a85faa52ab47cca3ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 12/82] fix: a forked process never returns into the code of
 the caller

KeyboardInterrupt, SystemExit (raised by every subshell), an exception with
errno None and an error while reporting an error all left the child running
the rest of the caller's program.
---
 pieshell/pipeline/builtins.py |  9 ++++++---
 pieshell/pipeline/command.py  | 14 +++++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 740a466..d7bf3e1 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -201,14 +201,17 @@ class SubShell(command.Command, builtin.Builtin):
         os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
+        ecode = 0
         try:
             self._arg[1].run_interactive()
         except Exception as e:
+            ecode = 1
             sys.stderr.write(str(e))
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
-            sys.exit(1)
-        sys.exit(0)
+                ecode = e.pipeline.exit_code
+        sys.stdout.flush()
+        sys.stderr.flush()
+        sys.exit(ecode)
 
 class Remote(builtin.Builtin):
     name = "remote"
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..bc86482 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -223,14 +223,18 @@ class Command(command.BaseCommand):
 
         pid = os.fork()
         if pid == 0:
-            ecode = -1
+            ecode = 255
             try:
                 self._child(redirects, args)
-            except Exception as e:
+            except SystemExit as e:
+                ecode = e.code if isinstance(e.code, int) else 1
+            except BaseException as e:
+                ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+                sys.stderr.flush()
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From 708e8aee6ae3136d626f1eb3b469e5304bfbc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 13/82] fix: a subshell fails if any stage of its pipeline
 fails

Its status was that of the last stage, 0 if only an earlier one had failed.
---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index d7bf3e1..a3b2a84 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -208,7 +208,7 @@ class SubShell(command.Command, builtin.Builtin):
             ecode = 1
             sys.stderr.write(str(e))
             if isinstance(e, running.PipelineError):
-                ecode = e.pipeline.exit_code
+                ecode = e.pipeline.exit_code or 1
         sys.stdout.flush()
         sys.stderr.flush()
         sys.exit(ecode)
-- 
2.43.0


From 522d4d67a84440f0c34988212b7ac30a8f7cd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 14/82] fix: the members of a group write to one and the same
 pipe

---
 pieshell/pipeline/group.py | 4 +++-
 pieshell/redir.py          | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..3ebc590 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,8 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # Both pipelines share one and the same pipe
+        redirects = redirects.make_pipes(redir.PIPE)
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -43,7 +45,7 @@ class Group(base.Pipeline):
         a = self.a._run(child_redirects, sess, indentation + "  ")
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
-        self._redirects = self.a._redirects.merge(self.b._redirects)
+        self._redirects = redirects
 
         redirects.close_source_fds()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2b4bdae..763585e 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -121,6 +121,8 @@ class Redirect(object):
             os.dup2(self.source, fd)
             self.source = fd
         return self
+    def is_special(self, kind):
+        return isinstance(self.source, type) and issubclass(self.source, kind)
     def make_pipe(self):
         if isinstance(self.source, type) and issubclass(self.source, PIPE):
             rfd, wfd = pipe.pipe_cloexec()
@@ -195,8 +197,8 @@ class Redirects(object):
                       for redirect in self.redirects.values()
                       if isinstance(redirect.source, int)]
                    + [2]) + 1
-    def make_pipes(self):
-        return type(self)(*[redirect.make_pipe()
+    def make_pipes(self, kind = SpecialRedirect):
+        return type(self)(*[redirect.make_pipe() if redirect.is_special(kind) else redirect
                             for redirect in self.redirects.values()])
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
-- 
2.43.0


From b438955b3ec923ad4a4b342fcf5c33add49f6543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 15/82] fix: a replaced pipe is not left dangling

---
 pieshell/pipeline/redirect.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index c85aab5..04e183d 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -38,6 +38,16 @@ class CmdRedirect(base.Pipeline):
 
         log.log(indentation + "Running [%s] with %s" % (repr(self), repr(redirects)), "cmd")
 
-        res = self.pipeline._run(redirects.merge(self.cmd_redirects), indentation + "  ")
-        self._redirects = self.pipeline._redirects
+        redirects = redirects.make_pipes(redir.PIPE)
+        child_redirects = redirects.merge(self.cmd_redirects)
+        res = self.pipeline._run(child_redirects, sess, indentation + "  ")
+
+        # A replaced pipe is not connected to anything at our end, but
+        # someone might still be holding the other end.
+        self._redirects = redir.Redirects(self.pipeline._redirects)
+        for fd, redirect in redirects.redirects.items():
+            if fd in self.cmd_redirects.redirects:
+                redirect.close_source_fd()
+                if redirect.pipe is not None:
+                    self._redirects.register(redirect)
         return res
-- 
2.43.0


From 46c657929db136310c87dba423fee9c32b449c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 16/82] fix: removing a redirection that is not there is no
 error

---
 pieshell/redir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 763585e..a1fe82a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -181,7 +181,7 @@ class Redirects(object):
             if not isinstance(redirect, Redirect):
                 redirect = Redirect(redirect)
             if redirect.source is None:
-                del self.redirects[redirect.fd]
+                self.redirects.pop(redirect.fd, None)
             else:
                 self.redirects[redirect.fd] = redirect
         return self
-- 
2.43.0


From 9fb106f220392cfb722fe059983e7759b044da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 17/82] fix: a pipeline used in several places gives
 independent stages

---
 pieshell/utils/copy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/utils/copy.py b/pieshell/utils/copy.py
index a8ff154..106a12a 100644
--- a/pieshell/utils/copy.py
+++ b/pieshell/utils/copy.py
@@ -8,7 +8,7 @@ copy_state = threading.local()
 @contextlib.contextmanager
 def copy_session(sess = None):
     old_memo = getattr(copy_state, "memo", None)
-    if sess:
+    if sess is not None:
         copy_state.memo = sess
     else:
         copy_state.memo = old_memo or {}
@@ -19,6 +19,11 @@ def copy_session(sess = None):
 
 def deepcopy(obj):
     with copy_session() as memo:
+        if hasattr(obj, "__deepcopy__"):
+            # A pipeline used in two places makes two independent
+            # stages, with independent arguments
+            with copy_session({}):
+                return obj.__deepcopy__()
         key = id(obj)
         if key not in memo:
             if isinstance(obj, (list, tuple)):
@@ -29,8 +34,6 @@ def deepcopy(obj):
                 memo[key] = bytes(obj)
             elif isinstance(obj, str):
                 memo[key] = str(obj)
-            elif hasattr(obj, "__deepcopy__"):
-                memo[key] = obj.__deepcopy__()
             else:
                 memo[key] = obj
         return memo[key]
-- 
2.43.0


From 0a94a3ed38c4702a628364a20248f4d0d415c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 18/82] fix: items of any size are written completely and
 without blocking

---
 pieshell/iterio.py | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..1e55c98 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -70,6 +70,7 @@ class OutputHandler(IOHandler):
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
         self.recursion_lock = False
+        self.pending = b""
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
 
@@ -94,7 +95,21 @@ class OutputHandler(IOHandler):
         IOHandler.destroy(self)
 
     def handle_event(self, event):
-        asyncio.get_event_loop().create_task(self.send_output())
+        if self.pending:
+            self.write_pending()
+        elif not self.recursion_lock:
+            asyncio.get_event_loop().create_task(self.send_output())
+
+    def write_pending(self):
+        # More than this could block, even though the fd is ready
+        try:
+            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+        except BlockingIOError:
+            return
+        except Exception as e:
+            self.destroy(e)
+            return
+        self.pending = self.pending[written:]
 
     def get_iter(self):
         if not hasattr(self.iter, "__anext__"):
@@ -102,17 +117,22 @@ class OutputHandler(IOHandler):
                 self.iter = itertoasync(self.iter)
             self.iter = self.iter.__aiter__()
         return self.iter
-            
+
+    def format_item(self, val):
+        return val
+
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.pending or self.destroyed: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val)                
+                self.pending = self.format_item(val)
+            log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
         except StopAsyncIteration:
+            log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
         except Exception as e:
             self.destroy(e)
@@ -125,21 +145,8 @@ class OutputHandler(IOHandler):
 
 
 class LineOutputHandler(OutputHandler):
-    async def send_output(self):
-        if self.recursion_lock: return
-        iter = self.get_iter()
-        try:
-            self.recursion_lock = True
-            val = await iter.__anext__()
-            self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val + b"\n")
-            log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
-        except StopAsyncIteration:
-            log.log("STOP ITERATION %s" % self.fd, "ioevent")
-            self.destroy()
-        except Exception as e:
-            self.destroy(e)
+    def format_item(self, val):
+        return val + b"\n"
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
-- 
2.43.0


From 82f2dfa84a5087aed832172b250907eb551c062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 19/82] fix: a function stage that ends releases its input

---
 pieshell/pipeline/function.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..51fe4fb 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -83,11 +83,11 @@ class Function(base.Pipeline):
             else:
                 return str(x).encode("utf-8")
 
+        stdin = None
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            thing = thing(
-                iterio.LineInputHandler(redirects.stdin.open(False), usage=self),
-                *self._arg, **self._kw)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            thing = thing(stdin, *self._arg, **self._kw)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
@@ -108,6 +108,9 @@ class Function(base.Pipeline):
                 redirects.stdout.open(False),
                 thing,
                 usage=self))
+        if stdin is not None:
+            # The function might not have read all of its input
+            self._running_process.iohandler.done_future.add_done_callback(lambda future: stdin.destroy())
         self._running_processes = [self._running_process]
         self._redirects = self._running_process.redirects = redirects
 
-- 
2.43.0


From 155c1a3092eee6014d9de6b9a22543e286d68024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 20/82] fix: a function that raises when called is a failing
 stage

---
 pieshell/pipeline/function.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 51fe4fb..2e37110 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -25,6 +25,9 @@ from . import command
 import types
 
     
+async def failing(exception):
+    raise exception
+
 class Function(base.Pipeline):
     """Encapsulates a function or iterator so that it can be used
     inside a pipeline. An iterator can only have its output piped into
@@ -87,7 +90,11 @@ class Function(base.Pipeline):
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
             stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
-            thing = thing(stdin, *self._arg, **self._kw)
+            try:
+                thing = thing(stdin, *self._arg, **self._kw)
+            except Exception as e:
+                # Same as for a generator: A stage that fails
+                thing = failing(e)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
-- 
2.43.0


From 37baaf9554a3515594fb7f7d1903932afa38b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 21/82] fix: a function stage can read from and write to files

---
 pieshell/iterio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1e55c98..9394d37 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,18 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Files can not be polled, they are always ready
+            def always_ready():
+                if self.enabled:
+                    callback(self.events)
+                    loop.call_soon(always_ready)
+            loop.call_soon(always_ready)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From 2ba3a2d8aa50b6ced6febcbeccae3046f8737da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 22/82] fix: an explicitly empty set of environment variables
 is empty

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..75b8671 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,9 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        if self._exports_value is None:
+            return os.environ
+        return self._exports_value
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From c6fadb3bdd0bcc1c004a957224c339c3d0dc4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 23/82] fix: an exported variable is not hidden by an old
 python variable

---
 pieshell/environ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 75b8671..2659833 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -212,6 +212,9 @@ class EnvScope(dict):
         env = dict.__getitem__(self, 'env')
         if name in env._exports:
             env._exports[name] = value
+            if name != "env":
+                # It might have been a python variable before it was exported
+                dict.pop(self, name, None)
         else:
             dict.__setitem__(self, name, value)
     def __getitem__(self, name):
-- 
2.43.0


From d2fd240eb56af8c743d867954e5ad1f1b401d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 24/82] fix: pattern characters in the name of the working
 directory are not special

---
 pieshell/environ.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 2659833..e213389 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -87,7 +87,11 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(self._expand_path(arg))
+        pattern = arg
+        if not pattern.startswith("/"):
+            # Only the argument is a pattern
+            pattern = os.path.join(glob.escape(self._cwd), pattern)
+        res = glob.glob(os.path.abspath(pattern))
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From c457911cee38427c568f68e2147686ed10299ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 25/82] fix: a failing change of directory changes nothing

---
 pieshell/environ.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index e213389..54917b7 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -100,11 +100,11 @@ class Environment(object):
         return res
     def _cd(self, cwd):
         cwd = self._expand_path(cwd)
-        if not os.path.exists(cwd):
-            raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
+        if not os.path.isdir(cwd):
+            raise IOError("Path is not an existing directory: %s" % cwd)
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0


From 6780ddbf98d34e8ee3d811478004dd2ea01a619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 26/82] fix: default redirections can be set to file names

---
 pieshell/environ.py | 2 +-
 pieshell/redir.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 54917b7..6f3d7c5 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -145,7 +145,7 @@ class Environment(object):
     def _coerce(self, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes, os.PathLike)):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index a1fe82a..5578a34 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -243,7 +243,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes, os.PathLike)):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From 2a1bba760917a5f792571dd8acf6201846c72c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 27/82] fix: derived environments have their own default
 redirections

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 6f3d7c5..8464c77 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -125,7 +125,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
-- 
2.43.0


From 981223fe24010f529ec26e7e6bfc4f28cd1d77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 28/82] fix: processes that have ended are not sent any signals

---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index f379007..edff38f 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -276,11 +276,13 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        if not self.is_running: return # The pid might be someone else's by now
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From 0f3103c680ddc06b41b861a17f842f5068942e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 29/82] fix: programs do not inherit the log file descriptor

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index c3cbb21..89a00df 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -30,6 +30,6 @@ elif hasattr(sys.stderr, "fileno"):
 else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
-os.dup2(outfd, logfd)
+os.dup2(outfd, logfd, inheritable=False)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
-- 
2.43.0


From a7af80edf0b1ec656975de3def620efb9a942b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 30/82] fix: Ctrl-Z reaches its handler without signalfd

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..8237368 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, lambda signo=signo: self.handle_event(signo))
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From 98485a06a7a5acb1e4137e9364fcac5b584177d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 31/82] fix: jsonutils.filter can be used

---
 pieshell/utils/jsonutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/utils/jsonutils.py b/pieshell/utils/jsonutils.py
index caf82e7..c29a6dc 100644
--- a/pieshell/utils/jsonutils.py
+++ b/pieshell/utils/jsonutils.py
@@ -17,7 +17,7 @@ def filter(func):
                 yield None
             elif func(item):
                 yield item
-    apply_map.__name__ = "filter(%s)" % (func.__name__,)
+    apply_filter.__name__ = "filter(%s)" % (func.__name__,)
     return apply_filter
 
 from_json = map(json.loads)
-- 
2.43.0


From aae3b85b128b4f7e725ef7d01ec5ed3134e2b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 32/82] fix: clear_dir_cache can be run

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index a3b2a84..860c05c 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -102,7 +102,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-- 
2.43.0


From 3e542907e72b124ad9046c13c22d6550078dddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 33/82] fix: bashsource undoes the quoting of declare -x
 exactly, for all variables

---
 pieshell/pipeline/builtins.py | 76 ++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 860c05c..949ed93 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,6 @@
 import os
 import os.path
-import shlex
-import io
+import re
 import asyncio
 import sys
 import base64
@@ -116,45 +115,48 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         except:
             return []
 
-def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
+declare_re = re.compile(
+    r"""declare (?P<flags>-[^ \n]*) (?P<name>[^ =\n]+)"""
+    r"""(?:=(?P<value>"(?:\\.|[^"\\])*"|\$'(?:\\.|[^'\\])*'|\((?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^"'])*?\)))?"""
+    r"""(?:\n|$)""",
+    re.DOTALL)
+function_re = re.compile(r"^([^ \n]+) \(\) ?\n\{ ?$", re.MULTILINE)
+ansi_escapes = {"a": b"\a", "b": b"\b", "E": b"\x1b", "f": b"\f", "n": b"\n", "r": b"\r", "t": b"\t", "v": b"\v"}
+
+def unquote_declare(value):
+    """Undoes the quoting done by declare -x"""
+    def unescape(match):
+        escape = match.group(1).decode("latin-1")
+        if value.startswith('"'):
+            return match.group(1)
+        elif escape[0] in "01234567":
+            return bytes([int(escape, 8)])
+        return ansi_escapes.get(escape, match.group(1))
+    content = value[1:-1] if value.startswith('"') else value[2:-1]
+    content = re.sub(rb"\\([0-7]{1,3}|.)", unescape, content.encode("utf-8"), flags=re.DOTALL)
+    return os.fsdecode(content)
 
-    lastlineno = 1
-    line = []
-    lines = []
+def parse_declares(data):
+    """Parses the output of declare -x; declare -f"""
+    vars = {}
+    pos = 0
     while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
-            break
-        line.append(token)
+        declaration = declare_re.match(data, pos)
+        if not declaration: break
+        pos = declaration.end()
+        # Variables without a value and arrays are not passed on by bash
+        value = declaration.group("value")
+        if value is not None and not value.startswith("("):
+            vars[declaration.group("name")] = unquote_declare(value)
+        if pos == len(data): break
 
-    vars = {}
-    funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
     funcs = {}
-    for i in range(len(funcstarts)):
-        if i >= len(funcstarts) - 1:
-            flines = lines[funcstarts[i][0]-1:]
-        else:
-            flines = lines[funcstarts[i][0]-1:funcstarts[i+1][0]-1]
-        funcs[funcstarts[i][1]] = "\n".join(flines)
+    starts = list(function_re.finditer(data, pos))
+    for idx, start in enumerate(starts):
+        end = len(data)
+        if idx + 1 < len(starts):
+            end = starts[idx + 1].start() - 1
+        funcs[start.group(1)] = data[start.start():end]
 
     return vars, funcs
 
-- 
2.43.0


From 1e03ce3e03daebbbcec01120fc2855cbfa5d4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 34/82] fix: bashsource finds scripts whatever their names

---
 pieshell/pipeline/builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 949ed93..86969f7 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,6 +1,7 @@
 import os
 import os.path
 import re
+import shlex
 import asyncio
 import sys
 import base64
@@ -171,11 +172,11 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(exp),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)),
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
-- 
2.43.0


From 08fee7419358f8c8022dde9377b1635ba9f7ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 35/82] fix: exit statuses are not shown as signal names

---
 pieshell/signalio/signalutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index 6f72ebf..92e5622 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -18,6 +18,7 @@ signals_by_value = {
 }
 
 def siginfo_to_names(siginfo):
+    exited = siginfo["ssi_code"] == CLD_EXITED
     siginfo = dict(siginfo)
     for key in siginfo:
         val = siginfo[key]
@@ -31,7 +32,7 @@ def siginfo_to_names(siginfo):
                 6: "CLD_CONTINUED"}.get(val, val)
         if (   key == "ssi_signo"
             or (key == "ssi_status"
-                and siginfo["ssi_code"] != CLD_EXITED)):
+                and not exited)):
             val = signals_by_value.get(val, val)
         siginfo[key] = val
     return siginfo
-- 
2.43.0


From adcfecfa637e99e4f38ed83ac3222a798530905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 36/82] fix: an argument's output is captured in a file of its
 own

A pipeline used as an argument shared the temporary files the output of
the command it is an argument of is captured in, so each of them
reported the other's stderr as its own.
---
 pieshell/pipeline/command.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index bc86482..6cc2be2 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -130,8 +130,9 @@ class BaseCommand(base.Pipeline):
         else:
             return "/dev/fd/X"
     
-    def _arg_list(self, redirects = None, sess = None, indentation = ""):
-        orig_redirects = redir.Redirects(redirects) if redirects is not None else redir.Redirects()
+    def _arg_list(self, redirects = None, sess = None, indentation = "", orig_redirects = None):
+        if orig_redirects is None: orig_redirects = redirects
+        orig_redirects = redir.Redirects(orig_redirects) if orig_redirects is not None else redir.Redirects()
         orig_redirects.borrow()
         def handle_arg_pipes(item):
             return self._handle_arg_pipes_wrapper(item, orig_redirects, redirects, sess, indentation)
@@ -215,10 +216,12 @@ class Command(command.BaseCommand):
 
         self._running_processes = []
 
-        redirects = redirects.make_pipes()
+        # Arguments share our pipes, but not the files our output is captured in
+        orig_redirects = redirects.make_pipes(redir.PIPE)
+        redirects = orig_redirects.make_pipes()
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
-        args = self._arg_list(redirects, sess, indentation)
+        args = self._arg_list(redirects, sess, indentation, orig_redirects)
         log.log(indentation + "222Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
         pid = os.fork()
-- 
2.43.0


From 23d93444eed2b6bfc64730bbc4e01aed97aa42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 37/82] fix: function stages sharing a pipe do not block each
 other

When two function stages read from (or write to) one and the same pipe,
the event loop reports it as ready to both. The one served last could
block in read() or write(), and with it everything else in the process,
the stages at the other end of the pipe included.
---
 pieshell/iterio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 9394d37..224bcba 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -39,8 +39,13 @@ class IOHandler(object):
     def enable(self):
         self.enabled = True
         loop = asyncio.get_event_loop()
+        poll = select.poll()
+        poll.register(self.fd, self.events)
         def callback(event):
-            self.handle_event(event)
+            # Another handler for the same pipe might have been faster,
+            # and reading or writing would block
+            if poll.poll(0):
+                self.handle_event(event)
         try:
             if self.events & select.POLLIN:
                 loop.add_reader(self.fd, callback, select.POLLIN)
-- 
2.43.0


From 3824345b1cefe82eba206fabc34dbec12fef33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 38/82] fix: an owned descriptor used by several redirections
 is closed once

---
 pieshell/redir.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 5578a34..2a765c9 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -230,8 +230,13 @@ class Redirects(object):
             else:
                 log.log("CLOSE OTHER FDS %s" % (i,), "fd")
     def close_source_fds(self):
+        closed = set()
         for redirect in self.redirects.values():
+            # Several redirects can have the same source
+            if redirect.source in closed: continue
             redirect.close_source_fd()
+            if isinstance(redirect.source, int) and not redirect.borrowed:
+                closed.add(redirect.source)
     def __getattr__(self, name):
         if name == "redirects":
             raise AttributeError(name)
-- 
2.43.0


From 6db9bc9f1b60ef9d165915292013894a2a15924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 39/82] fix: a function stage that ends by any exception has
 ended

---
 pieshell/iterio.py           | 4 +++-
 pieshell/pipeline/running.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 224bcba..1c4adeb 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -147,8 +147,10 @@ class OutputHandler(IOHandler):
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
-        except Exception as e:
+        except BaseException as e:
+            # Whatever the exception, the iterator has ended
             self.destroy(e)
+            if not isinstance(e, Exception): raise
 
     def _repr_args(self):
         args = IOHandler._repr_args(self)
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index edff38f..03c3a6d 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -208,7 +208,7 @@ class RunningItem(BaseRunningItem):
     async def await_finish(self):
         try:
             await self.iohandler.wait()
-        except Exception:
+        except BaseException:
             pass # Reported by is_failed
         self.running_pipeline.handle_finish()
     @property
-- 
2.43.0


From be7c40609e07b668552666dff8ced0f188d604e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 40/82] fix: a wait ends only when the results of the pipeline
 are there

---
 pieshell/pipeline/running.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 03c3a6d..d7dd64d 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -89,7 +89,7 @@ class RunningPipeline(object):
                 stop_signal_handler.waited_for.append(self)
             try:
                 self.restart()
-                while not self.pipeline_suspended and self.is_running:
+                while not self.pipeline_suspended and not self.finished:
                     future = asyncio.get_event_loop().create_future()
                     self.finish_futures.append(future)
                     await future
@@ -107,7 +107,7 @@ class RunningPipeline(object):
         return self.wait().__await__()
     async def wait_finished(self):
         """Waits for the pipeline to end, without continuing it"""
-        while self.is_running:
+        while not self.finished:
             future = asyncio.get_event_loop().create_future()
             self.finish_futures.append(future)
             await future
-- 
2.43.0


From c1b0aabe9628293649c34f9361a0ad4585a8d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 41/82] fix: a pattern that ends with a slash matches only
 directories

---
 pieshell/environ.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 8464c77..ca36e89 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -91,7 +91,11 @@ class Environment(object):
         if not pattern.startswith("/"):
             # Only the argument is a pattern
             pattern = os.path.join(glob.escape(self._cwd), pattern)
-        res = glob.glob(os.path.abspath(pattern))
+        path = os.path.abspath(pattern)
+        if pattern.endswith("/") and not path.endswith("/"):
+            # Only directories match
+            path += "/"
+        res = glob.glob(path)
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From e0f63035770ae906b04dd87369a581a4a193877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 42/82] fix: a directory called ~name can be entered

---
 pieshell/environ.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index ca36e89..d972272 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -71,9 +71,10 @@ class Environment(object):
     def _exports(self):
         self._exports_value = None
     def _expand_path(self, pth):
-        if not pth.startswith("/") and not pth.startswith("~"):
-            pth = os.path.join(self._cwd, pth)
+        # ~foo is an ordinary name if there is no user foo
         pth = os.path.expanduser(pth)
+        if not pth.startswith("/"):
+            pth = os.path.join(self._cwd, pth)
         pth = os.path.abspath(pth)
         return pth
     def _expand_argument(self, arg):
-- 
2.43.0


From d75df820abba9aebbb4dba16272b76a72d0adc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 43/82] fix: bashsource skips over arrays the way bash before
 4.4 prints them

---
 pieshell/pipeline/builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 86969f7..4532c53 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -118,7 +118,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
 
 declare_re = re.compile(
     r"""declare (?P<flags>-[^ \n]*) (?P<name>[^ =\n]+)"""
-    r"""(?:=(?P<value>"(?:\\.|[^"\\])*"|\$'(?:\\.|[^'\\])*'|\((?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^"'])*?\)))?"""
+    r"""(?:=(?P<value>"(?:\\.|[^"\\])*"|\$'(?:\\.|[^'\\])*'|'(?:[^']|'\\'')*'|\((?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^"'])*?\)))?"""
     r"""(?:\n|$)""",
     re.DOTALL)
 function_re = re.compile(r"^([^ \n]+) \(\) ?\n\{ ?$", re.MULTILINE)
@@ -146,8 +146,9 @@ def parse_declares(data):
         if not declaration: break
         pos = declaration.end()
         # Variables without a value and arrays are not passed on by bash
+        # Bash before 4.4 puts the elements of an array in single quotes
         value = declaration.group("value")
-        if value is not None and not value.startswith("("):
+        if value is not None and not value.startswith(("(", "'")):
             vars[declaration.group("name")] = unquote_declare(value)
         if pos == len(data): break
 
-- 
2.43.0


From a62bb23d07370c6a17642783f9c2b07df0363d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 44/82] fix: processes whose names have no letters or digits
 can be reached by name

---
 pieshell/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index d204a28..a3ca3f8 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -7,6 +7,8 @@ class TreeGroup(object):
         for child in children:
             key = child._getkey(level)
             key = slugify.slugify(key, separator="_")
+            if not key:
+                key = "_"
             if re.match(r"^[0-9]", key):
                 key = "n" + key
             if key not in procs: procs[key] = {}
-- 
2.43.0


From a9a6eaf5351b744e52efd052fa0821a795a01236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 45/82] fix: a process called children can be reached by name

---
 pieshell/tree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index a3ca3f8..17cb484 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -13,15 +13,15 @@ class TreeGroup(object):
                 key = "n" + key
             if key not in procs: procs[key] = {}
             procs[key][child._getkey(None)] = child
-        self.children = {}
+        self._children = {}
         for key, value in procs.items():
             if len(value) == 1:
-                self.children[key] = next(iter(value.values()))
+                self._children[key] = next(iter(value.values()))
             else:
-                self.children[key] = TreeGroup(value.values(), level+1)        
+                self._children[key] = TreeGroup(value.values(), level+1)        
     def __dir__(self):
-        return self.children.keys()
+        return self._children.keys()
     def __getattr__(self, key):
-        if key not in self.children:
+        if key == "_children" or key not in self._children:
             raise AttributeError(key)
-        return self.children[key]
+        return self._children[key]
-- 
2.43.0


From baf5f2be10a18eded2847932a7131fbf293e3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 46/82] fix: a process that has ended does not hide its
 siblings

---
 pieshell/ps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index b33a8c3..cce5643 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -54,7 +54,7 @@ class PstreeProcess(object):
             key = getattr(self.INFO, attr)
             if attr != "pid":
                 key = key()
-        except psutil.AccessDenied:
+        except psutil.Error: # Not allowed to know, or it has ended
             key = self._getkey(level+1)
             if attr == "exe" and isinstance(key, list):
                 key = key[0]
-- 
2.43.0


From fe4111f1ee4fd28784ddcb8eac030167cd154b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 47/82] fix: map and filter accept callables that have no name

---
 pieshell/utils/jsonutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/utils/jsonutils.py b/pieshell/utils/jsonutils.py
index c29a6dc..345b812 100644
--- a/pieshell/utils/jsonutils.py
+++ b/pieshell/utils/jsonutils.py
@@ -7,7 +7,7 @@ def map(func):
                 yield None
             else:
                 yield func(item)
-    apply_map.__name__ = "map(%s)" % (func.__name__,)
+    apply_map.__name__ = "map(%s)" % (getattr(func, "__name__", func),)
     return apply_map
 
 def filter(func):
@@ -17,7 +17,7 @@ def filter(func):
                 yield None
             elif func(item):
                 yield item
-    apply_filter.__name__ = "filter(%s)" % (func.__name__,)
+    apply_filter.__name__ = "filter(%s)" % (getattr(func, "__name__", func),)
     return apply_filter
 
 from_json = map(json.loads)
-- 
2.43.0


From ac76b6c4b3bbb0d024cef214e3ade0e5439a58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 48/82] fix: map and filter can be used as stages of a pipeline

---
 pieshell/utils/jsonutils.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pieshell/utils/jsonutils.py b/pieshell/utils/jsonutils.py
index 345b812..9d1a6e2 100644
--- a/pieshell/utils/jsonutils.py
+++ b/pieshell/utils/jsonutils.py
@@ -1,22 +1,44 @@
 import json
 
 def map(func):
-    def apply_map(iter):
+    def apply_map_iter(iter):
         for item in iter:
             if item is None:
                 yield None
             else:
                 yield func(item)
+    async def apply_map_aiter(iter):
+        async for item in iter:
+            if item is None:
+                yield None
+            else:
+                yield func(item)
+    def apply_map(iter):
+        # The input of a pipeline stage is an asynchronous iterator
+        if hasattr(iter, "__aiter__"):
+            return apply_map_aiter(iter)
+        return apply_map_iter(iter)
     apply_map.__name__ = "map(%s)" % (getattr(func, "__name__", func),)
     return apply_map
 
 def filter(func):
-    def apply_filter(iter):
+    def apply_filter_iter(iter):
         for item in iter:
             if item is None:
                 yield None
             elif func(item):
                 yield item
+    async def apply_filter_aiter(iter):
+        async for item in iter:
+            if item is None:
+                yield None
+            elif func(item):
+                yield item
+    def apply_filter(iter):
+        # The input of a pipeline stage is an asynchronous iterator
+        if hasattr(iter, "__aiter__"):
+            return apply_filter_aiter(iter)
+        return apply_filter_iter(iter)
     apply_filter.__name__ = "filter(%s)" % (getattr(func, "__name__", func),)
     return apply_filter
 
-- 
2.43.0


From 8eae3b2847114328ae5b1e5d38e1bdd370211c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 49/82] fix: a pipeline whose captured output has been removed
 ends

---
 pieshell/pipeline/running.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index d7dd64d..52d1eb2 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -224,8 +224,12 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
-                self.output_content[fd] = f.read()
+            try:
+                with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
+                    self.output_content[fd] = f.read()
+            except OSError:
+                # Someone has removed it, but the pipeline has still ended
+                self.output_content[fd] = ""
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
             if not isinstance(redirect.pipe, redir.STRING): continue
-- 
2.43.0


From c8c0389236b758b859b1bab2f4c92ee35d8d85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 50/82] fix: a command whose arguments can not be expanded can
 be displayed

---
 pieshell/pipeline/command.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 6cc2be2..3c63a19 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -136,6 +136,12 @@ class BaseCommand(base.Pipeline):
         orig_redirects.borrow()
         def handle_arg_pipes(item):
             return self._handle_arg_pipes_wrapper(item, orig_redirects, redirects, sess, indentation)
+        def expand_argument(item):
+            try:
+                return self._env._expand_argument(item)
+            except Exception:
+                if redirects is not None: raise
+                return [item] # Only for display
         args = []
         if self._arg:
             for arg in self._arg:
@@ -146,10 +152,10 @@ class BaseCommand(base.Pipeline):
                         elif value is True:
                             args.append("--%s" % (name.replace("_", "-"),))
                         else:
-                            for match in self._env._expand_argument(handle_arg_pipes(value)):
+                            for match in expand_argument(handle_arg_pipes(value)):
                                 args.append("--%s=%s" % (name.replace("_", "-"), match))
                 else:
-                    for match in self._env._expand_argument(handle_arg_pipes(arg)):
+                    for match in expand_argument(handle_arg_pipes(arg)):
                         args.append(match)
         return args
 
-- 
2.43.0


From 44b7af0365992c248206d6e681341a5559f469bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 51/82] fix: a builtin that was run is not run again when it is
 displayed

---
 pieshell/pipeline/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index f026255..da61be6 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -148,6 +148,7 @@ class Pipeline(DescribableObject):
         with copy.copy_session() as sess:
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
+        self._started = True
         pipeline = running.RunningPipeline(processes, self)
         if processes: # Some builtins do all their work right away
             self._env.last_pipeline = pipeline
-- 
2.43.0


From 71e98c9ec4b491d48939af58a3e8d40086c2768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 52/82] fix: a subshell exits whatever the argument of
 SystemExit

---
 pieshell/pipeline/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 3c63a19..a1b3ee4 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -243,7 +243,7 @@ class Command(command.BaseCommand):
                 sys.stderr.flush()
             finally:
                 # If we ever get to here, all is lost...
-                os._exit(ecode)
+                os._exit(ecode & 0xff)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From ddd8eae7583d16f8c10bc08763625ba188a7e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 53/82] fix: a pipe can be run in an environment without stdin
 or stdout

---
 pieshell/pipeline/pipe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 64afa7d..1d4c029 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -45,8 +45,11 @@ class Pipe(base.Pipeline):
         dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", self.src._redirects.stdout.pipe), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
-        self._redirects.register(redir.Redirect(self.src._redirects.stdin))
-        self._redirects.register(redir.Redirect(self.dst._redirects.stdout))
+        for fd, part in (("stdin", self.src), ("stdout", self.dst)):
+            # Without this, it would be an end of the pipe between the parts
+            self._redirects.redirect(fd, None)
+            if hasattr(part._redirects, fd):
+                self._redirects.register(redir.Redirect(getattr(part._redirects, fd)))
 
         redirects.close_source_fds()
 
-- 
2.43.0


From cf440892127b38876876ecb2ad0aa0c4d4cb9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 54/82] fix: --log turns on logging

---
 pieshell/log.py   | 2 ++
 pieshell/shell.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index 89a00df..669fb08 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -31,5 +31,7 @@ else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
 os.dup2(outfd, logfd, inheritable=False)
+def enable(category):
+    logging.getLogger(category).setLevel(logging.INFO)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
diff --git a/pieshell/shell.py b/pieshell/shell.py
index 0b0763c..1fcc0a0 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -61,7 +61,7 @@ Where OPTIONS are any of
     else:
         if 'log' in kws:
             for name in kws['log'].split(','):
-                log.debug[name] = True
+                log.enable(name)
 
         with environ.envScope:
             environ.envScope["args"] = args
-- 
2.43.0


From 10077a0588bedca4d2d24ea68f950bc95c291408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 55/82] fix: incomplete scripts and command lines are not
 silently ignored

---
 pieshell/environ.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index d972272..5eb9168 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -272,10 +272,20 @@ class EnvScope(dict):
             f = open(filename)
         with f as f:
             content = f.read()
-        code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
+        self._execute(content, filename, "exec")
 
     def execute_expr(self, expr):
-        code.InteractiveConsole(locals=self).runsource(expr, "<expr>")
+        # A newline ends the block of a compound statement
+        self._execute(expr + "\n", "<expr>", "single")
+
+    def _execute(self, source, filename, symbol):
+        console = code.InteractiveConsole(locals=self)
+        if console.runsource(source, filename, symbol):
+            # Incomplete, but there won't be any more lines
+            try:
+                compile(source, filename, symbol)
+            except SyntaxError:
+                console.showsyntaxerror(filename)
 
     def _copy_resource(self, resource, dst):
         dstdir = os.path.dirname(dst)
-- 
2.43.0


From d7735aad6c5028a3c10aba065ce9eb6d3867c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 56/82] fix: modules have no special attributes that are not
 defined

---
 pieshell/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index a41fe6a..1c887c7 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,6 +8,9 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
+        if name.startswith("__") and name.endswith("__") and name not in self._scope:
+            # Not a command, but something the import system looks for
+            raise AttributeError(name)
         return self._scope[name]
     def __setattr__(self, name, value):
         self._scope[name] = value
-- 
2.43.0


From 89e8d63e7021cab54fbd592962ef93e2177eed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 57/82] fix: importing from a namespace package

---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 1c887c7..4a9d3ee 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -34,7 +34,7 @@ class Finder(object):
         paths = sys.path
         if path is not None:
             paths = path
-        if not isinstance(paths, (list, tuple)):
+        if isinstance(paths, str):
             paths = [paths]
         found = None
         for path in paths:
-- 
2.43.0


From 6362d36bdf6d986cdad1da893c26015dbe36a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 58/82] fix: the default configuration can be executed from the
 package

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 5eb9168..9201b2e 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -272,6 +272,8 @@ class EnvScope(dict):
             f = open(filename)
         with f as f:
             content = f.read()
+        if isinstance(content, bytes):
+            content = content.decode("utf-8")
         self._execute(content, filename, "exec")
 
     def execute_expr(self, expr):
-- 
2.43.0


From c25f496701f540e1c01a58c7867504021686fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 59/82] fix: starting up without a usable home directory

---
 pieshell/environ.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 9201b2e..0a6a908 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -296,9 +296,14 @@ class EnvScope(dict):
         path = resource.split("://")[1]
         pkg, path = path.split("/", 1)
         with pkg_resources.resource_stream(pkg, path) as inf:
-            with open(dst, "wb") as outf:
-                outf.write(inf.read())
-
+            try:
+                with open(dst, "wb") as outf:
+                    outf.write(inf.read())
+            except OSError:
+                # Don't leave half a file
+                if os.path.exists(dst):
+                    os.unlink(dst)
+                raise
         
     def execute_startup(self):
         env = self["env"]
@@ -323,7 +328,7 @@ class EnvScope(dict):
         try:
             if not os.path.exists(conf):
                 self._copy_resource(conf_resource, conf)
-        except PermissionError:
+        except OSError:
             self.execute_file(conf_resource)
         else:
             if os.path.exists(conf):
-- 
2.43.0


From f6a7bae36267f3d2a3bc22032613a91ee320bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 60/82] fix: completion without a complete PATH

---
 pieshell/environ.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0a6a908..753dfa6 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -177,11 +177,14 @@ class Environment(object):
         if self._dir_cache is None:
             e = self._exports
             self._dir_cache = []
-            paths = e["PATH"].split(":")
+            paths = e.get("PATH", os.defpath).split(":")
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-                self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                try:
+                    self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                except OSError:
+                    pass # Not every directory of PATH has to exist
             self._dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
             self._dir_cache.sort()
         return self._dir_cache
-- 
2.43.0


From 702affb3825ae2693762cd88e26475b2f9cf5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 61/82] fix: cd completes directories of its environment

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 4532c53..48a74bc 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -35,7 +35,7 @@ class CdBuiltin(builtin.Builtin):
         if self._arg[1:]:
             pth = self._env._expand_path(self._path)
         else:
-            pth = "."
+            pth = self._env._cwd
         try:
             return [name for name in os.listdir(pth)
                     if os.path.isdir(os.path.join(pth, name))] + list(self._replacements.keys())
-- 
2.43.0


From 2bfa6ae2393eb8e67094b62ff378052e7b375cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 62/82] fix: the command line to complete is quoted

---
 pieshell/pipeline/command.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index a1b3ee4..d05e360 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -10,6 +10,7 @@ import threading
 import signal
 import operator
 import re
+import shlex
 import builtins
 import functools
 import inspect
@@ -160,12 +161,7 @@ class BaseCommand(base.Pipeline):
         return args
 
     def _arg_list_sh(self, *arg, **kw):
-        def quote_arg(arg):
-            arg = str(arg)
-            if " " in arg:
-                arg = repr(arg)
-            return arg
-        return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
+        return ' '.join(shlex.quote(str(arg)) for arg in self._arg_list(*arg, **kw))
 
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
@@ -259,7 +255,7 @@ class Command(command.BaseCommand):
 
     def _complete(self):
         cmd = self._arg_list_sh() + " "
-        return (item.strip() for item in self._env.get_completions(cmd))
+        return (item.strip() for item in self._env.get_completions(environ.R(cmd)))
 
     @property
     def __signature__(self):
-- 
2.43.0


From 63511fe19edbe8efcb25285c5114be416c2f522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 63/82] fix: completion leaves the last pipeline alone

---
 pieshell/pipeline/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index d05e360..c830555 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -255,7 +255,9 @@ class Command(command.BaseCommand):
 
     def _complete(self):
         cmd = self._arg_list_sh() + " "
-        return (item.strip() for item in self._env.get_completions(environ.R(cmd)))
+        # In an environment of its own: completion is not a job of the user
+        env = self._env(interactive=False)
+        return (item.strip() for item in env.get_completions(environ.R(cmd)))
 
     @property
     def __signature__(self):
-- 
2.43.0


From 2d5d099402a3cac9ace3d0347f1fd1756440024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 64/82] fix: from m import * imports what a .pysh module
 defines

---
 pieshell/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index 4a9d3ee..25e1cef 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,6 +8,8 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
+        if name == "__all__" and name not in self._scope:
+            return [key for key in dict.keys(self._scope) if key != "env" and not key.startswith("_")]
         if name.startswith("__") and name.endswith("__") and name not in self._scope:
             # Not a command, but something the import system looks for
             raise AttributeError(name)
-- 
2.43.0


From c7ece4ebfea1fa7ba77a6c8525ae38bb6ee6f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 65/82] fix: the default configuration loads bash's variables

---
 pieshell/resources/default_config.pysh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/resources/default_config.pysh b/pieshell/resources/default_config.pysh
index 5050ad6..aeaf976 100644
--- a/pieshell/resources/default_config.pysh
+++ b/pieshell/resources/default_config.pysh
@@ -7,7 +7,7 @@ import pieshell
 
 
 # Load environment variables from bash
-bashsource()
++bashsource()
 
 # If we're in a git repo directory: Calculate the current branch and status
 def parse_git_branch():
-- 
2.43.0


From 6efacd26428145a0474b404b5bcb6f145fd33339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 66/82] fix: the prompt shortens only directories below the
 home directory

---
 pieshell/resources/default_config.pysh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/resources/default_config.pysh b/pieshell/resources/default_config.pysh
index aeaf976..220b2a4 100644
--- a/pieshell/resources/default_config.pysh
+++ b/pieshell/resources/default_config.pysh
@@ -31,7 +31,7 @@ def parse_git_branch():
 # Turn /home/MYUSERNAME/foo/bar into ~/foo/bar
 def compress_user(path):
     home = os.path.expanduser('~')
-    if path.startswith(home):
+    if path == home or path.startswith(home + "/"):
         path =  "~" + path[len(home):]
     return path
 
-- 
2.43.0


From c360c8edde3c6ef812fa0fd957cb643960d347cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 67/82] fix: R strings can be unpickled

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 753dfa6..cad6b2d 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -20,6 +20,8 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        if name == "str": # Being unpickled
+            raise AttributeError(name)
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
-- 
2.43.0


From 94f52687c90eff2f8dee5476edea70531b81e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 68/82] fix: pipelines can be pickled after and while others
 run

---
 pieshell/environ.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index cad6b2d..8f692fc 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -207,9 +207,10 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            # What has been run here is not part of the configuration
+            if k == "running_pipelines": return utils.LineList()
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        return {k: mangle(k, v) for k, v in self.__dict__.items() if k != "last_pipeline"}
 
 env = Environment()
 
-- 
2.43.0


From 11b1e19142a90695fa205a3b3bec8089e5925def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 69/82] fix: special redirects can be unpickled

---
 pieshell/redir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2a765c9..7c775e2 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -25,7 +25,7 @@ class SpecialRedirect(object):
     def __init__(self, **kws):
         object.__setattr__(self, "kws", kws)
     def __getattr__(self, name):
-        if name not in self.kws:
+        if name == "kws" or name not in self.kws: # kws is missing while being unpickled
             raise AttributeError(name)
         return self.kws[name]
     def __setattr__(self, name):
-- 
2.43.0


From 14c761018b2bf118e2f7eccc17204e37cb53d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 70/82] fix: unpickled commands have no running process

---
 pieshell/pipeline/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index da61be6..ff4b750 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -51,9 +51,10 @@ def describable_object_reduce(self):
     if hasattr(type, "__getstate__"):
         state = self.__getstate__()
     else:
-        state = {k: v for k, v in self.__dict__.items()
+        state = {k: v if k != "_running_process" else None
+                 for k, v in self.__dict__.items()
                  if not k.startswith("__")
-                 and k not in ("_running_process", "_running_processes")}
+                 and k != "_running_processes"}
     return (
         cls.__new__,
         (cls,),
-- 
2.43.0


From ecbb6d86d81229e7f5fa2edee447ea05e131dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 71/82] fix: logging never makes a pipeline fail

---
 pieshell/log.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index 669fb08..b46f7a1 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -5,8 +5,11 @@ import resource
 
 class PieshellLogFDHandler(logging.StreamHandler):
     def emit(self, record):
-        msg = self.format(record)
-        os.write(logfd, ("%s\n" % (msg,)).encode("utf-8"))
+        try:
+            msg = self.format(record)
+            os.write(logfd, ("%s\n" % (msg,)).encode("utf-8", "backslashreplace"))
+        except Exception:
+            self.handleError(record)
 
 pieshell_log_fd_handler = PieshellLogFDHandler()
 pieshell_log_fd_handler.setFormatter(logging.Formatter("%(process)d:" + logging.BASIC_FORMAT))
-- 
2.43.0


From 63f6179c18a527d45737875b28f6a9d997e5726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 72/82] fix: iterating over a run again reads on where the last
 iteration stopped

---
 pieshell/pipeline/running.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 52d1eb2..5e2e7b6 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -65,15 +65,22 @@ class RunningPipeline(object):
         self.pipeline = pipeline
         self.pipeline_suspended = False
         self.finished = False
+        self.readers = {}
         for process in processes:
             process.running_pipeline = self
         # Just in case all the processes have already terminated...
         # They could have been blindingly fast after all :)
         self.handle_finish()
+    def _reader(self, handler):
+        # There is only one output to read, a second iteration carries
+        # on where the first one stopped
+        if handler not in self.readers:
+            self.readers[handler] = handler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait)
+        return self.readers[handler]
     def __aiter__(self):
-        return iterio.LineInputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait).__aiter__()
+        return self._reader(iterio.LineInputHandler)
     def iterbytes(self):
-        return iterio.InputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait)
+        return self._reader(iterio.InputHandler)
     def restart(self):
         self.pipeline_suspended = False
         for process in self.processes:
-- 
2.43.0


From f8aef32d0e58850f9d067cd4b384ffd9f4fd12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 73/82] fix: any asynchronous iterable can be a stage, and one
 that refuses to be iterated fails

---
 pieshell/iterio.py           | 11 ++++++-----
 pieshell/utils/asyncutils.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1c4adeb..b60488d 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -83,6 +83,7 @@ class OutputHandler(IOHandler):
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
         self.recursion_lock = False
+        self.iterating = False
         self.pending = b""
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
@@ -124,22 +125,22 @@ class OutputHandler(IOHandler):
             return
         self.pending = self.pending[written:]
 
-    def get_iter(self):
-        if not hasattr(self.iter, "__anext__"):
+    async def next_item(self):
+        if not self.iterating:
             if not hasattr(self.iter, "__aiter__"):
                 self.iter = itertoasync(self.iter)
             self.iter = self.iter.__aiter__()
-        return self.iter
+            self.iterating = True
+        return await self.iter.__anext__()
 
     def format_item(self, val):
         return val
 
     async def send_output(self):
         if self.recursion_lock or self.pending or self.destroyed: return
-        iter = self.get_iter()
         try:
             self.recursion_lock = True
-            val = await iter.__anext__()
+            val = await self.next_item()
             self.recursion_lock = False
             if val is not None:
                 self.pending = self.format_item(val)
diff --git a/pieshell/utils/asyncutils.py b/pieshell/utils/asyncutils.py
index 001d8b3..97e11b8 100644
--- a/pieshell/utils/asyncutils.py
+++ b/pieshell/utils/asyncutils.py
@@ -13,7 +13,7 @@ def asyncitertoiter(aitf):
 
 class itertoasync(object):
     def __init__(self, it):
-        self.it = iter(it)
+        self.it = it
     def __aiter__(self):
         self.it = iter(self.it)
         return self
-- 
2.43.0


From e31ef12b66da9eeaa5a930c83e79b52be689fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 74/82] fix: an argument of bytes is that argument, not an
 iterator of numbers

---
 pieshell/pipeline/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index c830555..2b15efc 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -124,6 +124,9 @@ class BaseCommand(base.Pipeline):
         return u"%s%s" % (prefix, running_process)
 
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
+        if isinstance(item, bytes):
+            # Exactly this, there is nothing to expand
+            return environ.R(os.fsdecode(item))
         if isinstance(item, (str, environ.R)):
             return item
         elif redirects is not None:
-- 
2.43.0


From cc831fe31478ae4c95795bb9a711583f0a2f0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 75/82] fix: items of an iterator can be read without asking
 for an iterator first

---
 pieshell/utils/asyncutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/utils/asyncutils.py b/pieshell/utils/asyncutils.py
index 97e11b8..84d8822 100644
--- a/pieshell/utils/asyncutils.py
+++ b/pieshell/utils/asyncutils.py
@@ -13,11 +13,14 @@ def asyncitertoiter(aitf):
 
 class itertoasync(object):
     def __init__(self, it):
-        self.it = it
+        self.source = it
+        self.it = None
     def __aiter__(self):
-        self.it = iter(self.it)
         return self
     async def __anext__(self):
+        if self.it is None:
+            # Only now, so that an error is raised where the items are read
+            self.it = iter(self.source)
         try:
             value = next(self.it)
         except StopIteration:
-- 
2.43.0


From e0ee385c66b676e0dc14887206c1bcee1ed7fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 76/82] fix: a log that cannot be written does not end up in
 the output of programs

---
 pieshell/log.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index b46f7a1..e5ab32b 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -9,7 +9,9 @@ class PieshellLogFDHandler(logging.StreamHandler):
             msg = self.format(record)
             os.write(logfd, ("%s\n" % (msg,)).encode("utf-8", "backslashreplace"))
         except Exception:
-            self.handleError(record)
+            # Nothing to be done about it: what would be written to
+            # stderr might end up in the output of a program
+            pass
 
 pieshell_log_fd_handler = PieshellLogFDHandler()
 pieshell_log_fd_handler.setFormatter(logging.Formatter("%(process)d:" + logging.BASIC_FORMAT))
-- 
2.43.0


From 52097bf565132609f0cbb722d78869022f97b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 77/82] fix: asking for the signature or documentation of a
 command is not a job of the user

---
 pieshell/pipeline/command.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 2b15efc..51a9fd3 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -262,9 +262,15 @@ class Command(command.BaseCommand):
         env = self._env(interactive=False)
         return (item.strip() for item in env.get_completions(environ.R(cmd)))
 
+    def _help(self):
+        cmd = self("--help")
+        # In an environment of its own: asking is not a job of the user
+        cmd._env = self._env(interactive=False)
+        return bytes(cmd).decode("utf-8", "replace")
+
     @property
     def __signature__(self):
-        hlp = str(self("--help"))
+        hlp = self._help()
         args = []
 
         params = {}
@@ -324,4 +330,5 @@ class Command(command.BaseCommand):
 
     @property
     def __doc__(self):
-        return "\n".join(self("--help"))
+        hlp = self._help()
+        return hlp[:-1] if hlp.endswith("\n") else hlp
-- 
2.43.0


From 720062375e4b8b9a2d93a482473f88749bdf4057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:57 +0000
Subject: [PATCH 78/82] fix: option names with digits are not cut off in
 signatures

---
 pieshell/pipeline/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 51a9fd3..a358a01 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -274,7 +274,7 @@ class Command(command.BaseCommand):
         args = []
 
         params = {}
-        for param, value in re.findall(r"\s+(--[a-zA-Z][-a-zA-Z]+)([\[]?=[^\s\n]*)?", hlp):
+        for param, value in re.findall(r"\s+(--[a-zA-Z][-a-zA-Z0-9]+)([\[]?=[^\s\n]*)?", hlp):
             param = param[2:].replace("-", "_")
             if param not in params:
                 params[param] = set()
-- 
2.43.0


From ab497dfb42ae5019fc3203b417bbcdb4ef36514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 79/82] fix: any help text can be turned into a signature

---
 pieshell/pipeline/command.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index a358a01..54ff70b 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -14,6 +14,7 @@ import shlex
 import builtins
 import functools
 import inspect
+import keyword
 import enum
 import typing
 
@@ -276,6 +277,7 @@ class Command(command.BaseCommand):
         params = {}
         for param, value in re.findall(r"\s+(--[a-zA-Z][-a-zA-Z0-9]+)([\[]?=[^\s\n]*)?", hlp):
             param = param[2:].replace("-", "_")
+            if keyword.iskeyword(param): continue # Not possible as a parameter
             if param not in params:
                 params[param] = set()
             if value.startswith("["):
@@ -305,11 +307,12 @@ class Command(command.BaseCommand):
                     t = enum.Enum(param.title(), {value.upper(): value for value in enumvalues})
                     t.__module__ = 'builtins'
                     types.add(t)
-                types = list(types)
-                while len(types) > 1:
-                    types = [typing.Union[types[0],types[1]]] + types[2:]
             except Exception as e:
-                pass
+                # Not every text can be the name of an enum member
+                types.add(str)
+            types = list(types)
+            while len(types) > 1:
+                types = [typing.Union[types[0],types[1]]] + types[2:]
             args.append(
                 inspect.Parameter(
                     param,
-- 
2.43.0


From 773092adbe94d7e181957f0f717f81ae1b324eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:25 +0000
Subject: [PATCH 80/82] fix: a command is not shown as another expression

---
 pieshell/pipeline/command.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 54ff70b..aefb260 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -27,6 +27,14 @@ from . import running
 from . import base
 from . import command
 
+def is_attribute_name(name, owner):
+    """Can name be written as an attribute of an object of the class
+    owner, without meaning an attribute the class itself has?"""
+    return (isinstance(name, str)
+            and re.match(r"[a-zA-Z]+\Z", name) is not None
+            and not keyword.iskeyword(name)
+            and not hasattr(owner, name))
+
 class BaseCommand(base.Pipeline):
     """This class is an abstract base class for all commands. It can
     however be instantiated, and will then return an instance of
@@ -100,7 +108,8 @@ class BaseCommand(base.Pipeline):
         for prefix_idx in range(0, len(args) + 1):
             if prefix_idx == len(args):
                 break
-            if not isinstance(args[prefix_idx], (bytes, str)) or not re.match(r"^[a-zA-Z]*$", args[prefix_idx]):
+            owner = type(self) if prefix_idx else type(self._env)
+            if not is_attribute_name(args[prefix_idx], owner):
                 break
 
         return args[:prefix_idx], args[prefix_idx:]
-- 
2.43.0


From 3fe16ce0f3e3641a5d2a5d83e66434c197c6dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 81/82] fix: a process is shown as the expression for its
 command line

---
 pieshell/ps.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index cce5643..4dea90d 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -1,4 +1,5 @@
 import slugify
+import keyword
 import os
 from . import tree
 try:
@@ -7,27 +8,34 @@ except:
     psutil = None
 
 def cmdline2pieshell(cmdline):
-    param = False
+    from .pipeline import command
     names = []
+    for item in cmdline:
+        if slugify.slugify(item, separator="_") != item or not item.isidentifier():
+            break
+        if keyword.iskeyword(item) or (names and hasattr(command.Command, item)):
+            break
+        names.append(item)
     args = []
     kwargs = {}
-    for item in cmdline:
-        if slugify.slugify(item, separator="_") != item:
-            param = True
-        if not param:
-            names.append(item)
-        elif item.startswith("--") and "=" in item:
-            k, v = item[2:].split("=", 1)
-            kwargs[k] = v
-        elif item.startswith("-") and not item.startswith("--"):
+    # Options at the end can be given by name
+    end = len(cmdline)
+    while end > len(names):
+        key, sep, value = cmdline[end-1].partition("=")
+        key = key[2:].replace("-", "_") if key.startswith("--") else ""
+        if not sep or not key.isidentifier() or keyword.iskeyword(key) or key in kwargs or "--" + key.replace("_", "-") + sep + value != cmdline[end-1]:
+            break
+        kwargs[key] = value
+        end -= 1
+    for item in cmdline[len(names):end]:
+        if item.startswith("-") and item[1:].isidentifier() and not keyword.iskeyword(item[1:]):
             args.append(item)
         else:
             args.append(repr(item))
-    if not len(names):
-        names = ["_"]
-    res = ".".join(names)
-    if args or kwargs:
-        res = ".".join(names) + "(" + ", ".join(args + [k + "=" + v for k, v in kwargs.items()]) + ")"
+    args += [k + "=" + repr(v) for k, v in reversed(list(kwargs.items()))]
+    res = ".".join(names or ["_"])
+    if args:
+        res += "(" + ", ".join(args) + ")"
     return res
 
 class PstreeProcess(object):
-- 
2.43.0


From 246d6ca7624f1ff792d1d1d86a31972af03d65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:04 +0000
Subject: [PATCH 82/82] fix: a group of pipes is not shown as a pipe of groups

---
 pieshell/pipeline/base.py     | 8 ++++++++
 pieshell/pipeline/group.py    | 3 ++-
 pieshell/pipeline/pipe.py     | 1 +
 pieshell/pipeline/redirect.py | 3 ++-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index ff4b750..c6aaf22 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -82,12 +82,20 @@ class Pipeline(DescribableObject):
     """Abstract base class for all pipelines"""
     
     _print_state = threading.local()
+
+    # How tightly what is shown holds together; an operand that does
+    # so less tightly is put in parentheses
+    _binding = 3
     def __init__(self, env = None):
         self._env = env if env is not None else environ.env
         self._started = False
         self.__module__ = None
     def __deepcopy__(self, memo = {}):
         return type(self)(self._env)
+    def _repr_operand(self, operand):
+        if getattr(type(operand), "_binding", 3) < self._binding:
+            return u"(%s)" % (repr(operand),)
+        return repr(operand)
     def _coerce(self, thing, direction):
         from . import function
         if thing is None:
diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 3ebc590..9d66efb 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -25,6 +25,7 @@ from . import builtins
 
 class Group(base.Pipeline):
     """Runs two pipelines in parallel"""
+    _binding = 1
     def __init__(self, env, a, b):
         base.Pipeline.__init__(self, env)
         self.a = a
@@ -32,7 +33,7 @@ class Group(base.Pipeline):
     def __deepcopy__(self, memo = {}):
         return type(self)(self._env, copy.deepcopy(self.a), copy.deepcopy(self.b))
     def _repr(self):
-        return u"%s + %s" % (repr(self.a), repr(self.b))
+        return u"%s + %s" % (self._repr_operand(self.a), self._repr_operand(self.b))
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 1d4c029..79c0076 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -26,6 +26,7 @@ from . import builtins
 class Pipe(base.Pipeline):
     """Pipes the standard out of a source pipeline into the standard
     in of a destination pipeline."""
+    _binding = 0
     def __init__(self, env, src, dst):
         base.Pipeline.__init__(self, env)
         self.src = src
diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index 04e183d..79e0213 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -25,6 +25,7 @@ from . import builtins
 from . import pipe
 
 class CmdRedirect(base.Pipeline):
+    _binding = 2
     def __init__(self, env, pipeline, redirects):
         base.Pipeline.__init__(self, env)
         self.pipeline = pipeline
@@ -32,7 +33,7 @@ class CmdRedirect(base.Pipeline):
     def __deepcopy__(self, memo = {}):
         return type(self)(self._env, copy.deepcopy(self.pipeline), copy.deepcopy(self.cmd_redirects))
     def _repr(self):
-        return u"%s with %s" % (repr(self.pipeline), repr(self.cmd_redirects))
+        return u"%s with %s" % (self._repr_operand(self.pipeline), repr(self.cmd_redirects))
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
-- 
2.43.0

