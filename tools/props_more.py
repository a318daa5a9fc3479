# executed by props.py

prop("C04", "The resolver only answers with versions that satisfy every requirement",
     "When resolution of a request succeeds, the answer contains each requested package and every dependency of every selected version, exactly one version per package (whatever spelling of its name a requirement uses), each available from the repository and inside every requirement that a requested or selected package puts on it (requirements whose marker or extra does not apply excluded). Nothing else is selected: every answered package is reachable from the request.",
     ["inputs", "programs"], "all package universes and requests (dependency graphs with conflicts, cycles, repeated and contradicting requirements, spelling variants, extras, pre-releases)",
     "tests resolve a few fixed universes; soundness has to hold for every dependency graph and every order of conflict learning",
     ["resolution/pubgrub.py", "resolution/dependency_resolver.py", "resolution/resolution_monitor.py"],
     [("solver", "resolution/pubgrub.py"), ("resolve_dependencies", "resolution/dependency_resolver.py")],
     "TLA+ (Resolution.tla): solutions defined declaratively, universes enumerated by TLC (ResolutionMC) and generated; the real resolver's answers are judged by TLC",
     "every small universe TLC enumerates and thousands of generated larger ones are resolved by the real solver, every answer checked against the declarative definition of a solution")

prop("C05", "The resolver finds a solution whenever one exists and otherwise reports failure",
     "Resolution terminates for every request; it reports unsatisfiable exactly when no assignment of versions satisfies all requirements, and never fails with any other error; the failure names a reason. The outcome does not depend on the spelling of package names or on repeated requirements.",
     ["inputs", "programs"], "all package universes and requests",
     "completeness quantifies over all assignments; a test can only show that some satisfiable instance is solved",
     ["resolution/pubgrub.py", "resolution/dependency_resolver.py"],
     [("solver", "resolution/pubgrub.py"), ("incompatibility set", "resolution/pubgrub.py")],
     "TLA+ (Resolution.tla): existence of a solution decided by TLC for every universe; the real resolver's verdict and termination compared by TLC",
     "satisfiability of each enumerated or generated universe is decided by the specification and compared with what the real resolver answers, including termination")

prop("C06", "After install, update or uninstall a site satisfies every request and dependency",
     "After a successful installation or update, the site holds each requested package at a version inside the request and inside every dependency constraint of the installed packages; everything that is installed was requested, was there before, or is a dependency; a refused request leaves the site exactly as it was and is refused only when no consistent site contains it; dependency overrides hold; packages that need no change keep their version, update mode picks the newest versions, requested packages are recorded as requested and dependencies are not.",
     ["histories", "inputs"], "all histories of installs, updates, forced reinstalls and removals over all package universes",
     "the outcome depends on the accumulated state of the site, tests start from an empty one",
     ["api/packages/site_packages.py", "api/packages/package_installation.py", "api/environments/environment.py"],
     [("InstallationPlan", "api/packages/package_installation.py"), ("SitePackages", "api/packages/site_packages.py")],
     "TLA+ (Site.tla): install/update contracts as a relation between site states; histories run on real environments and each step judged by TLC; small worlds enumerated exhaustively (SiteMC)",
     "each step of generated histories, and every operation in every reachable state of small worlds, is executed on the real site and judged by the specification")

prop("C07", "Uninstalling removes what nobody needs any more and nothing anyone needs",
     "Uninstalling a package removes it if no remaining package depends on it (and otherwise keeps it but forgets that the user requested it); packages that were only installed as its dependencies and are needed by nobody are removed as well, packages requested by the user or needed by a remaining package never are. The reported removals are exactly the packages that are gone, and the orphans question is answered exactly.",
     ["histories"], "all site states reachable by installs, updates and removals, including cyclic, overridden and inconsistent ones",
     "reachability over an arbitrary dependency graph and request history",
     ["api/packages/site_packages.py", "api/environments/environment.py", "api/packages/package_installation.py"],
     [("uninstall", "api/environments/environment.py"), ("orphan search", "api/packages/site_packages.py")],
     "TLA+ (Site.tla): uninstall/remove/orphans contracts; histories and all reachable small-world states executed on real sites and judged by TLC",
     "every uninstall in generated histories and in TLC-enumerated reachable states of small worlds is executed on the code and judged")

prop("C08", "A site holds exactly the files of its installed packages, truthfully recorded",
     "After any history of installs, updates and removals of wheels the site holds, besides files of others, exactly the files the installed wheels bring (library, scripts, data, headers and entry point scripts, in the right place with the right content, shebang and mode); the RECORD of each package lists exactly its files with right sizes and hashes; installing never breaks a file of the user or of another package, removing deletes nothing of others; a wheel whose record, layout or hashes do not match is refused; entry points run.",
     ["histories", "inputs"], "all histories over all wheel contents (odd names, namespace packages, data schemes, entry points, foreign and linked files, damaged wheels)",
     "contents, histories and pre-existing files combine without bound",
     ["api/distributions/wheel_distribution.py", "api/packages/package_installation.py", "utils/files.py", "api/packages/site_packages.py", "api/distributions/distinfo.py", "utils/hashes.py", "launchers/__init__.py"],
     [("wheel installation", "api/distributions/wheel_distribution.py"), ("InstalledPackage.uninstall", "api/packages/site_packages.py"), ("CopyTransaction", "utils/files.py")],
     "TLA+ (Files.tla): contents of a site as a function of its packages; histories of real wheels executed on real sites, every snapshot judged by TLC",
     "snapshots of the whole site after every step of generated histories of real wheels are judged by the specification, including damaged wheels and foreign or linked files")

prop("C09", "A failed installation leaves nothing behind and restores what it overwrote",
     "When installing a package fails or is interrupted at any point, the error is reported and everything that installation did is undone: created files and directories are gone and every overwritten or removed file is back with its content, mode and link target. When several packages are installed at once, each of them is afterwards completely there or not at all, and nothing still runs once the failure is reported.",
     ["crash_points", "fault_sequences", "histories"], "all points at which an installation can fail, over all wheels and site states",
     "tests only run installations that succeed; the point of failure, the existing files and the wheel contents combine without bound",
     ["utils/files.py", "api/distributions/wheel_distribution.py", "api/packages/package_installation.py", "utils/promises.py"],
     [("CopyTransaction", "utils/files.py"), ("install_extracted_wheel", "api/distributions/wheel_distribution.py"), ("await_all_promises_or_cancel", "utils/promises.py")],
     "TLA+ (Txn.tla/TxnMC.tla): undo log model checked; every exported operation sequence replayed on the real transaction, and real installations with an injected failure at the k-th disk access judged by TLC (RollbackTrace)",
     "the undo log is model checked over 5 nested paths; the real transaction replays every exported sequence; real installations are failed at every (or a seeded share of) disk access")

prop("C10", "A promise completes once, and everyone who waits learns its outcome",
     "A promise is completed or failed by exactly one of the calls that try (the others are rejected); every result(), state query and callback reports that outcome, never another and never before it happened; every callback registered with when_completed runs exactly once, its return value or exception is the outcome of the derived promise, and a failing callback disturbs nobody; nobody waits for a completed promise. await_all_promises_or_cancel returns normally only if all succeeded, and otherwise raises the error of one of them after every other has ended or been cancelled before it started.",
     ["schedules", "histories"], "all interleavings of threads that complete, fail, cancel, query, wait for and chain promises",
     "races between completion and registration or waiting appear in single schedules only",
     ["utils/promises.py"],
     [("_SimplePromise", "utils/promises.py"), ("await_all_promises_or_cancel", "utils/promises.py")],
     "TLA+ (Promise.tla/PromiseMC.tla): every small program model checked against an atomic promise; the same and longer programs run on the real promises under a deterministic scheduler, histories judged by TLC",
     "every history of small thread programs on an atomic promise is model checked; the real code runs those and longer programs under controlled schedules that preempt between lines")

prop("C11", "The process pool executes every task once and always answers it",
     "Every accepted task is executed at most once and its promise completes: with its result, or as failed if it raised, could not be transferred or its worker process died, without affecting other tasks; never more tasks run at once than allowed and tasks do not wait while a worker may be started. Cancelling succeeds only for a task that has not started and is then never executed; closing ends all workers and answers all tasks; large results and everything tasks print arrive completely.",
     ["schedules", "fault_sequences", "histories"], "all schedules of users, handlers and workers, all points where a worker dies, expires or the pool is closed",
     "worker death, expiry, cancellation and closing race with submission; tests run none of it",
     ["utils/multiproc/__init__.py", "utils/multiproc/worker.py", "utils/promises.py"],
     [("ProcessPoolExecutor", "utils/multiproc/__init__.py"), ("_WorkerHandler", "utils/multiproc/__init__.py")],
     "TLA+ (ProcPool.tla/ProcPoolMC.tla): pool design model checked (safety and liveness); the real pool runs scenarios under a deterministic scheduler with played workers, and with real processes, histories judged by TLC",
     "the design is model checked with 2-3 tasks; the real pool code runs thousands of scheduled scenarios and some hundred ones with real worker processes")

prop("C12", "A cached property is computed once per object and never outdated",
     "Concurrent readers of a cached property of one object all get the value of a single computation; no two threads compute it at the same time and it is not computed again until it is cleared or set. After a clear or set has returned, no read that starts later returns an older value (unless its computation was still going on then); a failing computation raises to its reader and is not cached; clears and sets never fail because of other threads, and objects do not influence each other.",
     ["schedules", "histories"], "all interleavings of threads that read, clear and set properties of shared objects",
     "double computation and lost clears need particular interleavings of two or three threads",
     ["utils/properties.py"],
     [("cached_property", "utils/properties.py")],
     "TLA+ (Cached.tla/CachedMC.tla): the locking algorithm model checked for all small programs; the same and longer programs run on the real property under a deterministic scheduler, histories judged by TLC",
     "every interleaving of small programs is model checked on the algorithm, the code runs them under thousands of controlled schedules")

prop("C13", "A fetched resource is complete and current, and fetched once at a time",
     "A fetch answers only with complete content of the right URL: with the version the server had while it was fetching, or (when the caller asked for no revalidation) with the version stored by the last successful fetch, never with a truncated, mixed or outdated one, whatever the server, its connections, redirects, compression or concurrent fetches do; a hash check accepts exactly the digest of that content. It fails only for a reason the server gave, with the error all callers of that download see, and later fetches work again; the same URL is never requested twice at once, a stored resource is requested again only to ask whether it changed. Nothing is written outside the cache directory.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of fetching threads, all server behaviours (truncated, reset, silent, redirecting, compressed, chunked and conditional answers, idle connections that were closed), all histories of changing resources",
     "the failure needs an answer to break off at some byte, a connection to be reused, or two fetches to overlap in one way",
     ["utils/http/http_client.py", "utils/http/cache_directive.py", "utils/promises.py"],
     [("HttpClient.fetch_resource", "utils/http/http_client.py"), ("connection pool", "utils/http/http_client.py"), ("CacheDirective", "utils/http/cache_directive.py")],
     "TLA+ (HttpCache.tla/HttpCacheMC.tla): fetch algorithm model checked against a failing server; its programs run on the real client under seeded schedules and a played server, histories judged by TLC",
     "the fetch algorithm is model checked; thousands of seeded schedules and server behaviours run on the real client, every history of calls and requests judged by the specification")

prop("C14", "The lock keeps each environment's versions and prefers them",
     "Updating the lock of a project for an environment records exactly the versions installed there, leaves what other kinds of environments locked unchanged, and unlocking a package removes it for all of them; a saved lock is the same when any later program loads it. Resolving in an environment tries the version locked for it first, then those locked for other environments, then the rest in the order of the repository, and offers exactly what the repository offers; packages are recognised under any spelling of their name.",
     ["histories"], "all histories of installing, locking, unlocking, saving and loading in several environments",
     "the lock is a history-dependent file shared by environments; tests lock nothing",
     ["resolution/packages_lock.py"],
     [("PackagesLock", "resolution/packages_lock.py"), ("LockPrioritizingRepository", "resolution/packages_lock.py")],
     "TLA+ (Lock.tla/LockMC.tla): all short histories model checked and exported; they and longer seeded ones run on the real lock (also in programs started anew), every answer judged by TLC",
     "all histories of 4 operations of a small lock are model checked and replayed on the code together with thousands of longer ones")

prop("C15", "Packages come from the configured repositories of the context",
     "A package is looked up in the repository it is bound to, otherwise in the repositories of the context in their configured order (without the bind-only ones) and then in those it inherits (project, group, environment, zoo, global; or none, or only the global ones); the projects of a group themselves and a named file come from their sources, and exactly the matching packages of the one deciding repository are offered. Adding, removing, binding and unbinding takes effect at once in that context, changes no other name or order, and any program started later sees exactly the same.",
     ["histories", "configurations"], "all configurations of repositories, bindings and inheritance of five kinds of contexts, and all histories of changing them",
     "contexts inherit from each other, names and bindings interact, and changes are written to files; tests configure none of it",
     ["api/repositories/repository_management.py", "api/repositories/repositories_configuration.py", "config/configclass.py", "config/toml.py"],
     [("RepositoryManagement", "api/repositories/repository_management.py"), ("RepositoriesConfiguration", "api/repositories/repositories_configuration.py"), ("ConfigFile", "config/configclass.py")],
     "TLA+ (Lookup.tla/LookupMC.tla): all small configurations and operations model checked and exported; they and seeded histories run on real projects, groups, environments and zoos, every answer judged by TLC",
     "all small configurations are model checked for the laws of lookup; the exported and thousands of seeded histories run on real configuration files, also across programs")

prop("C16", "Configuration files say what was written, keep what was not changed",
     "Loading any well-formed configuration file (TOML, INI, entry points, WHEEL) gives the values it means, and saving values and loading them gives the same values, whatever strings, numbers, dates, arrays and nested tables they hold. Changing some values of a TOML file through its configuration object changes exactly these: all other values, their order and the comments of the file stay; what is written is always well-formed TOML.",
     ["inputs", "histories"], "all documents, forms of writing them, and sequences of edits",
     "documents combine quoting, dotted keys, inline and nested tables, comments and edits; the tests read a few fixed ones",
     ["config/toml.py", "config/configfiles.py", "config/configclass.py"],
     [("loads and dumps", "config/toml.py"), ("TomlConfigIO", "config/configfiles.py"), ("config classes", "config/configclass.py")],
     "TLA+ (Toml.tla/TomlMC.tla): documents as trees, edits as transitions, model checked and exported; these and seeded documents in seeded forms run through the real reader, editor and writer, judged by TLC (TomlTrace) with an independent reader",
     "all small documents and edits are model checked and replayed; thousands of seeded documents, forms and edits run on the code")

prop("C17", "The artifact chosen for an environment fits it and none fits better",
     "Among the artifacts of a package, an artifact is chosen for an environment only if its tags (interpreter, ABI, platform: glibc, musl, macOS, Windows) and its required python version admit that environment, and if any artifact does then one is chosen; wheels are preferred to source distributions, and no wheel is chosen when another fits at least as well in every tag and better in one.",
     ["inputs", "configurations"], "all interpreters, platforms and sets of artifact names",
     "tags combine interpreter versions, ABIs, libc and macOS versions and architectures beyond the machine that runs the tests",
     ["api/environments/environment_introspection.py", "api/packages/standard_package.py", "api/distributions/wheel_distribution.py"],
     [("compatibility tags", "api/environments/environment_introspection.py"), ("choice of the artifact", "api/packages/standard_package.py")],
     "TLA+ (Tags.tla/TagsMC.tla): which tags an interpreter on a platform admits, and their order, laws model checked over all small environments; the real choice in played environments is judged by TLC (TagsTrace)",
     "the tag rules are model checked for consistency; hundreds of played environments choose from seeded sets of artifacts with the real code")

prop("C18", "A requirement means what its text says, also once printed",
     "Parsing a well-formed PEP 508 requirement gives the package it names (whatever the case and separators), exactly its extras, the versions its specifiers admit or the URL it names, and it applies in exactly the environments and for the extras its marker says. Printing a requirement and parsing the result gives the same.",
     ["inputs"], "all names, extras, specifiers, URLs and markers in all spellings, in all environments",
     "requirements are read from the metadata of strangers, in every spelling; the tests read a few",
     ["api/dependencies/dependency.py", "api/dependencies/env_markers.py", "api/versions/version_parser.py", "api/versions/version_specifiers.py"],
     [("PEP508DependencyParser", "api/dependencies/dependency.py"), ("PEP508EnvMarkerParser", "api/dependencies/env_markers.py")],
     "TLA+ (Requirement.tla/RequirementMC.tla over Specifiers.tla): the meaning of requirements and markers, laws model checked; every marker of the model and seeded requirements parsed, printed and reparsed by the real code, judged by TLC",
     "all markers up to three levels over three atoms are model checked and replayed in all their environments, with thousands of seeded requirements")

prop("C19", "Package indexes offer what can be used, and what they say is installed",
     "Asked for a package, the configured repositories (PyPI, simple indexes, directories), in order, offer exactly the versions of the first one that has any which the requirement admits and of which a file suits the environment and its python and was not yanked: newest first, pre-releases only where they are asked for or nothing else is left, as the index is now and not as it once was. A repository that does not know the package has nothing to offer, one that cannot be asked is an error. What is installed (or read for dependencies) is the content of a best suited file of that version, never one with another digest than the index says.",
     ["inputs", "histories"], "all listings of indexes, all changes of them, all requirements",
     "the tests ask PyPI itself about a few packages; indexes change, lie, fail and differ in form",
     ["repositories/pypi_repository.py", "repositories/simple_repository.py", "repositories/file_system_repository.py", "api/repositories/repository.py", "api/packages/standard_package.py"],
     [("PyPiRepository", "repositories/pypi_repository.py"), ("SimpleRepository", "repositories/simple_repository.py"), ("AbstractRepository.match", "api/repositories/repository.py")],
     "TLA+ (Index.tla/IndexMC.tla): what listings offer and which content may be installed, laws model checked over all small listings and changes; the histories are replayed against indexes served on the loopback network, every answer and installed content judged by TLC (IndexTrace)",
     "histories exported by the model and seeded ones, on played PyPI and simple indexes and directories, with yanked, unfit, corrupted, replaced files and outages")
prop("C20", "Environments are made, used and removed without touching anything else",
     "Below a directory of environments exactly those that were made (by pkm or by python's venv) and not deleted are listed and loaded; a new one runs the best installed interpreter that matches, sees no packages but its own, and nothing but it is changed, as by every other operation: what fails changes nothing, and nothing but environments of the directory is deleted. Commands run in an environment, and scripts exported from it, run the code of that environment wherever it is, and activations change PATH and VIRTUAL_ENV only while they last, however they nest and end.",
     ["histories", "inputs"], "all histories of operations, nested activations, names, installed interpreters and initial variables",
     "the tests create one environment and look at its version",
     ["api/environments/environment_builder.py", "api/environments/environments_zoo.py", "api/environments/environment.py", "api/environments/installed_pythons_locator.py", "launchers/executables.py", "utils/processes.py"],
     [("EnvironmentBuilder.create", "api/environments/environment_builder.py"), ("EnvironmentsZoo", "api/environments/environments_zoo.py"), ("Environment.activate", "api/environments/environment.py"),
      ("InstalledPythonsLocator", "api/environments/installed_pythons_locator.py"), ("Executables", "launchers/executables.py")],
     "TLA+ (Envs.tla/EnvsMC.tla): directories, packages, exported scripts, activations and what commands run, laws model checked over all short histories; the histories are replayed on real environments, the disk and the variables after every operation judged by TLC (EnvsTrace)",
     "histories exported by the model and seeded ones, with interpreters of many kinds, odd names, long paths and paths with spaces, exceptions and restarts")

prop("C21", "What is built from a project is the project: its files and its metadata",
     "Building a project gives a wheel with exactly the files of its packages and a source distribution from which the same wheel is built, each installable by other tools: names, RECORD, tags, links of editable wheels and archives are as their formats say. The metadata of both say what the configuration of the project says: name, version, description, people, urls, keywords, python requirement, dependencies of every extra, entry points. Building, bumping, saving and cleaning change nothing else in the project.",
     ["inputs", "histories"], "all project layouts and configurations, all histories of changing, building, bumping, saving and cleaning",
     "configurations combine texts, people, extras, markers, entry points, layouts and leftovers of earlier builds; the tests build nothing",
     ["build/pkm_builders.py", "api/projects/project.py", "api/projects/pyproject_configuration.py", "api/packages/package_metadata.py", "config/configfiles.py"],
     [("build_wheel and build_sdist", "build/pkm_builders.py"), ("Project", "api/projects/project.py"), ("PackageMetadata", "api/packages/package_metadata.py")],
     "TLA+ (Build.tla/BuildMC.tla): which files and metadata distributions of a project have, laws model checked over all small projects and histories; exported and seeded histories run on real projects, their distributions read by independent readers and judged by TLC (BuildTrace)",
     "histories exported by the model and seeded ones on real projects with seeded configurations and layouts")

prop("C22", "What was published is on the index, and only there",
     "Publishing uploads every distribution of the project, completely and as a well-formed form that names the file, its digests, its type and the metadata of the project, to the configured index only and with exactly the given credentials. It succeeds only if the index accepted every file and fails only if one was refused, redirected or its connection was lost; nothing that was accepted is uploaded again, whatever the index answers and whenever connections are lost. Credentials that are kept are given back as they were, and only to who knows the password of their store.",
     ["histories", "crash points", "inputs"], "all answers of an index, all points at which connections are lost, all project configurations, all histories of a credentials store",
     "the tests publish nothing; retries over lost connections, refusals and redirects only happen with indexes that misbehave",
     ["repositories/pypi_repository.py", "utils/http/mfd_payload.py", "utils/http/http_client.py", "api/projects/project.py", "api/repositories/repository_management.py"],
     [("PyPiPublisher", "repositories/pypi_repository.py"), ("MultipartFormDataPayload", "utils/http/mfd_payload.py"), ("Project.publish", "api/projects/project.py")],
     "TLA+ (Publish.tla/PublishMC.tla): a client and an index that answers anything, and a store of credentials, safety and termination model checked; the exported and seeded answers are played by a server on the loopback network to the real publisher, logs and forms judged by TLC (PublishTrace)",
     "all sequences of answers for two files are model checked and exported; they and seeded ones are played to the publisher, which uploads real distributions")

prop("C23", "Applications in containers and their environment leave each other alone",
     "An application that is put into a container gets exactly itself, its plugins and what they need, in versions that satisfy every requirement, and runs with them whatever else is in the environment; the environment and the other containers neither see nor lose anything. Its scripts are in the environment's bin directory, import from the container before the environment and end with the exit status of the program. Uninstalling the container or failing leaves nothing behind, listed containers, versions and plugins are those that are there.",
     ["histories", "inputs"], "all histories of installing, updating and uninstalling applications, plugins and packages of the environment, all package universes",
     "applications that share libraries in different versions with each other and their environment, plugins that change what is needed, updates and failures in between; the tests install no application",
     ["api/environments/package_containers.py", "api/packages/package_installation.py", "api/packages/site_packages.py", "utils/entrypoints.py"],
     [("PackageContainers", "api/environments/package_containers.py"), ("PackageInstallationTarget", "api/packages/package_installation.py")],
     "TLA+ (Containers.tla/ContainersMC.tla): an environment and its containers as sites, consistency, isolation and completeness model checked over all histories; exported and seeded histories are replayed in real environments and every state of disk, listing and running scripts is judged by TLC (ContainersTrace)",
     "exported histories of two applications with a plugin and a shared library, and seeded ones in random universes; every script on the path is run after every operation")
