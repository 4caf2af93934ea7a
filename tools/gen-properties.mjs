import fs from 'fs';
const P=[];
const p=(id,title,statement,over,text,why,files,mechanism,extra={})=>P.push({id,title,statement,quantifier:{over,text},why_tests_cant:why,anchors:{files,mechanism,...extra}});
const SW='packages/backend-recorder-sidecar-worker/src/';
const WD='packages/backend-recorder-workerd/src/';
const DH='packages/downloading-helpers/src/';
const CL='packages/client/src/';
const CO='packages/common/src/';
const RR='packages/remote-replay-launcher/src/';
const m=(name,where)=>({name,where});

p('S01','Accepted recording events reach storage or are marked lost',
 'Every batch of events the recording worker answered with success is eventually present in the uploaded recordings with its events unchanged, even when its instances crash and restart, alarms and flushes overlap, or object-storage requests fail and stall for a while. The only exception is data given up after repeated storage failures, and then a marker recording the abandonment is written to (or attempted against) storage, so a truncated recording is never read as a complete one. While nothing fails, accepted data is stored within a minute, whether or not more keeps arriving. A batch is stored more often than it was sent only if an instance crashed, its durable storage failed or the answer to an upload was lost.',
 ['schedules','crash_points','fault_sequences','histories'],'over every interleaving of batch intake, alarm and explicit flush, every crash point between durable-storage operations and external uploads, and every pattern of storage/credential failures',
 'the specs of this package cover the pure signing code only in this environment; none crashes an instance, overlaps a flush with an alarm, or fails a storage request half way',
 [SW+'recorder-session-object.ts',SW+'session-store.ts',SW+'index.ts',SW+'s3/storage.ts'],
 [m('atomic multi-key write of batches + sequence number after arming the alarm','recorder-session-object.ts append'),m('upload chunk, then persist state, then delete batches','recorder-session-object.ts drain'),m('consecutive-failure abandonment with marker and cooldown','session-store.ts')],
 {observe_at:['objects PUT to object storage','HTTP status of the intake endpoint'],state:[{name:'pending batches',meaning:'accepted, not yet uploaded',where:'durable object storage'},{name:'session state',meaning:'current session id and next chunk number',where:'durable object storage'}]});
p('S02','Stored recordings are well formed: metadata first, contiguous bounded chunks',
 'In object storage every recorded session that has at least one chunk also has its metadata document, written before its first chunk, and its chunks are numbered contiguously from 1 with no chunk overwritten by different events. A session is rolled over once it reaches its chunk-count or age limit, and every object is written under the prefix of the recording token that sent it.',
 ['schedules','crash_points','fault_sequences','histories'],'over every history of intake, flush, crash, restart and storage failure',
 'needs long histories with faults and crashes between the metadata upload, the chunk upload and the state write; the tests never execute the object under such a schedule',
 [SW+'session-store.ts',SW+'recorder-session-object.ts',SW+'s3/storage.ts'],[m('chunk numbering and rollover state machine','session-store.ts'),m('metadata written before chunk 1','session-store.ts')],{observe_at:['objects PUT to object storage']});
p('S03','Flush is a barrier: a successful flush means everything accepted is stored',
 'When the flush endpoint answers success, every batch accepted before the flush was sent is already in object storage (or has been explicitly abandoned), across all shards and no matter what background upload was already in progress. If any shard cannot be flushed the endpoint answers an error instead of success.',
 ['schedules','fault_sequences'],'over interleavings of flushes with intake and alarms, and shard failures',
 'tests do not overlap a flush with an alarm-driven upload or fail a subset of the shards',
 [SW+'index.ts',SW+'recorder-session-object.ts'],[m('fan-out to all shards, any failure is an error','index.ts'),m('drain until empty','recorder-session-object.ts')],{observe_at:['HTTP answer of the flush endpoint versus the object store at that moment']});
p('S04','Intake answers truthfully and never silently drops a valid batch',
 'For any request the recording worker answers in a way that matches what it did: malformed, oversized or wrong-version requests and a missing configuration are refused with the documented error status and store nothing, empty batches are accepted as no-ops, and a valid batch is answered with success only once it is durable. All events of one request id land in the same shard, in the order accepted.',
 ['inputs','fault_sequences','crash_points'],'over request bodies, sizes, versions and configurations, combined with instance faults at every point',
 'a sampled set of bodies cannot cover size boundaries crossed with instance failures; the worker spec does not run in this environment',
 [SW+'index.ts',SW+'recorder-session-object.ts',SW+'env.ts'],[m('validation ladder in the fetch handler','index.ts'),m('success only after the durable write resolves','recorder-session-object.ts')],{observe_at:['HTTP status','durable storage contents']});
p('S05','Upload credentials are fresh, shared and recoverable',
 'Every object-storage request is signed with credentials that are unexpired at that moment, concurrent uploads share one credential fetch instead of each starting their own, and after a rejected or failed credential the next upload obtains new ones rather than repeating the failure for ever. Credentials that work and are good for long are used again rather than fetched by every upload. Uploads and credential requests go to the configured endpoint, bucket, region and identity pool, or to the documented defaults.',
 ['schedules','fault_sequences'],'over interleavings of concurrent uploads, virtual time jumps past expiry, and credential-service failures',
 'expiry and concurrent refresh depend on time and interleavings that no test drives',
 [SW+'s3/cognito-credentials.ts',SW+'s3/storage.ts',SW+'s3/sigv4.ts'],[m('shared in-flight promise cleared on failure; early-expiry margin','cognito-credentials.ts'),m('403 drops cached credentials','storage.ts')],{observe_at:['requests to the credential service and the access key in upload signatures']});

p('W01','Recording never changes what the application does',
 'With recording enabled, for every request the wrapped worker returns the same status, headers and body bytes and throws the same errors as the unwrapped worker would (apart from documented response markers on document navigations), and every outbound call, key-value and binding operation gives the application the same result. This holds however slow, failing or unreachable the recording endpoint is, and no recording failure surfaces as an unhandled error.',
 ['inputs','schedules','fault_sequences'],'over application behaviours, request mixes, concurrency and recording-endpoint faults',
 'tests sample single requests against a prompt mock; they do not cross concurrent requests, streaming or aborted bodies with a hung or failing recording endpoint',
 [WD+'with-meticulous.ts',WD+'outbound-capture.ts',WD+'fetch-patch.ts',WD+'kv-patch.ts',WD+'binding-patch.ts',WD+'body-capture.ts'],[m('tee/clone the bodies and capture in background','body-capture.ts, outbound-capture.ts'),m('swallow and warn once','sidecar-client.ts')],{observe_at:['application-visible responses and errors']});
p('W02','Every captured operation is recorded once, in the right request',
 'In record mode with a healthy recording endpoint, each inbound request, outbound call and storage-binding operation yields exactly one event, carrying the request id of the inbound request that caused it even when many requests run concurrently, and delivered by the time the background work registered for that request ends. Bodies longer than the cap or too slow are flagged as truncated and never exceed the cap.',
 ['schedules','inputs'],'over interleavings of concurrent requests and their sub-operations, body sizes and chunkings',
 'cross-request attribution and lost or duplicated events appear only under particular interleavings of concurrent requests and buffer closes',
 [WD+'capture-buffer.ts',WD+'with-meticulous.ts',WD+'outbound-capture.ts',WD+'body-capture.ts',WD+'kv-capture.ts',WD+'context.ts'],[m('per-request async context and buffer with drain rounds','capture-buffer.ts, context.ts')],{observe_at:['event batches received by the recording endpoint','waitUntil promises']});
p('W03','Recording work is bounded in time',
 'Whatever the recording endpoint or a streamed body does, all background work the recorder registers for a request finishes within a bounded time, and the response to the client is not delayed by the recording endpoint. A capture that cannot be delivered is dropped, not retried for ever.',
 ['fault_sequences','schedules'],'over endpoint stalls, half-open connections and bodies that never end',
 'requires virtual time and never-settling peers',
 [WD+'sidecar-client.ts',WD+'capture-buffer.ts',WD+'body-capture.ts',WD+'sidecar-transport.ts'],[m('delivery timeout per post; body read timeout','sidecar-client.ts, body-capture.ts')],{observe_at:['virtual time at which the background promises settle']});
p('W04','Replays are hermetic',
 'While a request is being replayed, no outbound fetch call reaches a real backend unless the application marked that call as passthrough; the application gets the recorded answer instead, or an error when there is none or the replay service is unreachable or slow. A session the replay service has not settled is asked about again by the next request. Requests that are not replays are never answered from recordings, and replays record nothing.',
 ['schedules','fault_sequences','inputs'],'over mixes of replayed and ordinary requests running concurrently and replay-service faults',
 'a leak appears when the replay service fails or stalls at a particular call, or when a replayed and an ordinary request interleave',
 [WD+'replay-fetch.ts',WD+'with-meticulous.ts',WD+'replay-sidecar-url.ts',WD+'fetch-patch.ts',WD+'kv-patch.ts',WD+'binding-patch.ts'],[m('replay context consulted before the real call','replay-fetch.ts'),m('handshake cache keyed by service and session','replay-sidecar-url.ts')],{observe_at:['calls reaching the simulated real backends']});
p('W05','Replays are deterministic: time and randomness depend only on the session',
 'During a replayed request the clock and random values the application sees depend only on the session being replayed and its own sequence of calls: replaying again, or next to any number of other concurrent requests, at any real time, gives the same values. Outside replays the application sees the real clock and real randomness, and a busy-wait on the clock still terminates.',
 ['schedules','histories'],'over interleavings of concurrent replayed and ordinary requests and real-time offsets',
 'isolation of per-request generator state and of the frozen clock is a statement about all interleavings of concurrent requests',
 [WD+'virtual-clock.ts',WD+'virtual-random.ts',WD+'with-meticulous.ts',WD+'context.ts'],[m('per-request state in async context','virtual-random.ts, virtual-clock.ts')],{observe_at:['values of Date, Math.random, crypto as seen by the application']});

p('W06','Credentials never leave the worker in a recording or a lookup',
 'Nothing sent to the recording or replay service contains an authorization, cookie or other unlisted header of the application\'s requests, or the value of a secret-named field of a JSON request body or stored value, for every way of making the call and every outcome of it, including calls that fail or are aborted.',
 ['inputs','schedules','fault_sequences'],'over request shapes, bodies, concurrency and outcomes of each call',
 'tests redact sampled bodies; whether every capture path (failed, aborted, streamed, looked up in a replay) goes through the redaction is a statement about all of them',
 [WD+'outbound-capture.ts',WD+'body-capture.ts',WD+'redact-body.ts',WD+'kv-capture.ts',WD+'replay-fetch.ts'],[m('allow-list of captured headers; request bodies read through the redacting reader','outbound-capture.ts, body-capture.ts')],{observe_at:['bytes posted to the recording and replay services']});
p('W07','Replay logs carry the right replay',
 'Every line an application logs while serving a replayed request is tagged with that replay\'s id, continuation lines included, however many replays and ordinary requests run at the same time; lines of requests that are not replays are left as they were.',
 ['schedules','inputs'],'over interleavings of concurrent replayed and ordinary requests and forms of console output',
 'mislabelled output appears only when requests interleave around asynchronous work',
 [WD+'replay-log-tagging.ts',WD+'context.ts',WD+'with-meticulous.ts'],[m('tag resolved per call from async context','replay-log-tagging.ts')],{observe_at:['console output of the isolate']});

p('D01','A replay archive or test run download reported as done is complete on disk',
 'When fetching a replay archive or the data of a test run succeeds, every file of the requested scope is on disk with exactly the served content, whatever crashed or failed in earlier attempts and however many processes or calls fetch the same one concurrently. A directory left by an interrupted or partial download is never treated as a complete cached download, and never makes a later fetch impossible.',
 ['schedules','crash_points','fault_sequences','histories'],'over crash points, network and disk faults, concurrent fetchers and sequences of scopes',
 'this package has no runnable tests; completeness after a crash is a statement about every crash point',
 [DH+'scripts/replays.ts',DH+'file-downloads/download-file.ts',DH+'file-downloads/local-data.utils.ts'],[m('completion marker written last, under a directory lock','replays.ts'),m('wider cached scope satisfies a narrower request','replays.ts')],{observe_at:['directory contents after a successful call']});
p('D02','A file download either yields the exact bytes or an error, in bounded time',
 'A download that reports success has written exactly the bytes the server holds for that file, even when connections are cut, truncated, stalled or answered with errors along the way. A download that keeps failing ends in an error after a bounded number of attempts and bounded time, and leaves no partial file or temporary archive behind. Extracting an archive writes nothing outside its target directory, and an extraction that could not write a file is not reported as done.',
 ['fault_sequences','inputs'],'over sequences of connection faults, stalls, truncations and disk errors at every chunk boundary',
 'no runnable tests here; the property quantifies over where in the stream the fault hits',
 [DH+'file-downloads/download-file.ts'],[m('retry with cleanup and per-attempt timeout','download-file.ts'),m('temporary archive always removed','download-file.ts')],{observe_at:['file contents, settled result and virtual time']});
p('D03','Cached documents are never served torn, and their locks are exclusive',
 'Session data and test-run or replay metadata returned from the local cache always equal a complete document served by the backend, even if an earlier process died while writing it or several processes ask at once. A cached document is not fetched again while intact, at most one process writes a cached document at a time, and a failed fetch releases its lock and reports the failure.',
 ['schedules','crash_points','fault_sequences'],'over concurrent processes, crash points within the write, and backend failures',
 'no runnable tests here; a torn document needs a crash inside one particular write',
 [DH+'file-downloads/local-data.utils.ts',DH+'file-downloads/sessions.ts',DH+'file-downloads/test-runs.ts'],[m('per-file lock with release in finally; parse failure means re-download','local-data.utils.ts')],{observe_at:['returned documents; requests to the backend; lock holders']});
p('D04','Cached replay assets match a version the server really served',
 'After assets have been brought up to date successfully, each asset on disk equals a version the server served no earlier than the start of that call, and the remembered version tag belongs to the content on disk. This holds across crashes, failed downloads, changing server versions and concurrent users of the cache.',
 ['schedules','crash_points','fault_sequences','histories'],'over server version changes between the check and the download, crashes, and concurrent callers',
 'no runnable tests here; a tag ahead of its content needs a failure between two particular steps',
 [DH+'scripts/replay-assets.ts'],[m('tag recorded only after the content is downloaded, under a lock','replay-assets.ts')],{observe_at:['asset files and the remembered tags']});
p('D05','Downloaded sessions and replays are complete and listed truthfully',
 'When a download command reports success, everything it names is on disk: each session with every documented file holding exactly the recorded data, both documents of the JSON format, and each replay with its files and readable logs. The manifest lists exactly the sessions downloaded, in order of relevance, and sessions that could not be downloaded are named and counted. The relevant-sessions command lists exactly the sessions the service judged relevant (and the possibly relevant ones when asked to), with their details, and passes on what the user asked for and what the service says went wrong. This holds when the network or disk fails, sessions are gone, and earlier commands into the same directory were interrupted; without such faults the commands succeed.',
 ['fault_sequences','crash_points','inputs','histories'],'over session contents, faults at every request and file system call, and histories of interrupted commands sharing directories',
 'neither the commands nor the writing code have runnable tests; incomplete trees need a fault or interruption at a particular write',
 [DH+'file-downloads/sessions.ts',DH+'file-downloads/replay-log-text-files.ts','packages/cli/src/commands/download/session.command.ts','packages/cli/src/commands/download/replay.command.ts','packages/cli/src/commands/local/relevant-sessions.command.ts','packages/cli/src/command-utils/download-session.utils.ts'],[m('all files awaited before the summary is returned; manifest written last','sessions.ts, download-session.utils.ts')],{observe_at:['directory contents and output of the commands']});

p('C01','Transient failures are retried with bounded backoff; permanent ones are not',
 'A retried operation is attempted again only after a transient failure (network error, timeout, throttling or server error), at most the configured number of times, waiting between attempts a bounded, growing and jittered delay or the delay the server asked for. Permanent errors surface at once, and the caller always gets the result or error of the last attempt made.',
 ['fault_sequences','schedules'],'over sequences of outcomes and delays',
 'tests sample a few outcome sequences with mocked timers',
 [CO+'http-retry.utils.ts',CL+'utils/retry-transient-upload-errors.ts',CL+'client.ts'],[m('retry loop and error classification','http-retry.utils.ts, retry-transient-upload-errors.ts')],{observe_at:['attempt times and outcomes seen by the simulated server']});
p('C02','Every API call settles: answered, failed, or timed out',
 'An API call to the service ends within a bounded virtual time, with the decoded answer of a successful attempt or an error carrying the status and details of the failure, for every combination of slow, dropped, failing and throttled attempts. Each attempt carries credentials no older than those current when the call started, and no timer or request is left behind once the call has ended.',
 ['fault_sequences','schedules'],'over per-attempt faults, delays and token changes',
 'tests use prompt mocks; hangs need never-answering peers and virtual time',
 [CL+'client.ts',CO+'http-retry.utils.ts',CL+'errors.ts'],[m('per-attempt abort timer around a retry loop','client.ts')],{observe_at:['settled results, pending timers and open requests']});
p('C03','A signed upload succeeds only if storage accepted exactly the bytes',
 'Uploading a file or buffer to a signed URL reports success only if storage acknowledged receiving exactly those bytes, and otherwise fails with an error; it settles even if the connection is cut at any point of the request or response. With retries it is repeated only for transient failures and at most the allowed number of times.',
 ['fault_sequences'],'over where in the request or response the connection fails, and storage answers',
 'tests mock the transport with prompt complete answers',
 [CL+'utils/put-file-to-signed-url.ts',CL+'utils/retry-transient-upload-errors.ts',RR+'upload-utils/multipart-buffer-manager.ts',RR+'upload-utils/multipart-compressing-uploader.ts'],[m('status check on the response, error on the request','put-file-to-signed-url.ts')],{observe_at:['bytes received by the simulated storage, settled results']});
p('C04','Login tokens are refreshed safely and never lost to a race',
 'An expired or nearly expired login token is never sent; it is refreshed first, and a valid rotated token pair that a refresh obtained is never overwritten or erased by another call or process using the older one. If refreshing is rejected the user is treated as logged out rather than served a stale token, and a corrupt or missing token file means logged out, not a crash.',
 ['schedules','crash_points','fault_sequences'],'over concurrent callers and processes around expiry, identity-service faults, and crashes while storing',
 'tests run one caller at a time against a mock identity service',
 [CL+'oauth/oauth-refresh.ts',CL+'oauth/oauth-token-store.ts',CL+'api-token.utils.ts'],[m('expiry margin, refresh and store','oauth-refresh.ts')],{observe_at:['tokens presented to the API; token file contents']});
p('C05','Login flows end: with a token for this attempt or a clear failure',
 'A browser or device login ends within its deadline: with tokens issued for exactly this attempt (matching state and verifier) or with an error, and never accepts an answer meant for another attempt. Device polling respects the interval and slow-down instructions, and the local callback listener is always closed.',
 ['schedules','fault_sequences','inputs'],'over callback orders, forged or repeated callbacks, polling answers and service faults',
 'needs virtual time and adversarial callback orders',
 [CL+'oauth/oauth-login.ts',CL+'oauth/oauth-device-login.ts',CL+'oauth/oauth-callback-server.ts',CL+'oauth/oauth-pkce.ts'],[m('state check and deadlines','oauth-callback-server.ts, oauth-device-login.ts')],{observe_at:['requests to the identity service; results; open listeners']});
p('C06','Paginated listings return every item exactly once',
 'Listing all replay diffs of a test run returns each diff exactly once, in server order, for any number of diffs, despite transient failures of individual page requests. A page that cannot be fetched makes the whole listing fail rather than return a partial list.',
 ['inputs','fault_sequences'],'over list sizes around page boundaries and per-page faults',
 'tests use one or two pages and no faults',
 [CL+'api/replay-diff.api.ts',CL+'client.ts'],[m('offset paging until a short page','replay-diff.api.ts')],{observe_at:['returned list versus server state']});

p('C07','The login and project in use are the ones the user chose',
 'After a login on the command line succeeds, commands on that machine act as that account until it logs out or someone logs in again; explicit and environment tokens are used only as documented. A login that is denied, times out or fails before it is granted leaves the earlier login in place, as do full disks and refreshes for another account; logging out is reported only if no login remains stored, and any other credential still in use is named. The default project of an account changes only because the user named or picked it, or because it is the only one accessible when logging in or selecting; then it is exactly that project, and reported only once the service has stored it. An existing default is respected by a login that names no project, no one is asked without a terminal, and the picker offers every accessible project. A selection kept by an older version on this machine is carried over once, never over a stored default, and is not lost before.',
 ['schedules','fault_sequences','histories'],'over sequences of commands in one or two terminals, accounts and their projects, changes made elsewhere, and failures of the service, the identity provider and the disk',
 'tests run single commands with everything mocked',
 ['packages/cli/src/commands/auth/login.command.ts','packages/cli/src/commands/auth/logout.command.ts','packages/cli/src/commands/auth/set-project.command.ts','packages/cli/src/utils/select-project.ts',CL+'oauth/legacy-project-migration.ts',CL+'oauth/oauth-token-store.ts',CL+'oauth/oauth-refresh.ts',CL+'api-token.utils.ts'],[m('selection and its storing','select-project.ts'),m('carrying over, once','legacy-project-migration.ts')],{observe_at:['requests to the service with their tokens, stored login, what is printed']});
p('R01','Multipart uploads reassemble to exactly the source archive',
 'When compressing and uploading a folder or image in parts succeeds, concatenating the accepted parts in order gives a valid archive of exactly the given files, every part except the last is at least the minimum part size, the part list names exactly the accepted parts in order, and at most the concurrency limit of parts is in flight at a time. If any part or the source finally fails the upload fails with an error, is never reported as complete, never hangs, and raises no unhandled error.',
 ['inputs','schedules','fault_sequences'],'over file sets, chunkings, part completion orders and per-part failures',
 'tests cover one or two parts with prompt uploads',
 [RR+'upload-utils/multipart-buffer-manager.ts',RR+'upload-utils/multipart-compressing-uploader.ts',RR+'asset-upload-utils.ts'],[m('at most 4 concurrent part uploads, etags ordered by part number','multipart-buffer-manager.ts')],{observe_at:['parts and etags at the simulated storage; completion request']});
p('R02','Uploading a build triggers at most one test run, only for a complete upload',
 'Uploading assets, asset chunks, containers or instructions asks the service to complete an upload only after every byte of it was accepted, names exactly the parts accepted, describes the archive as it is stored (its type, its file index), and passes on the commit, base and git diff it was given. One invocation causes at most one test run; gateway failures (502, 503, 504) of the completion call are retried, a definitive answer is final and is never followed by another trigger, and any other failure is reported to the caller. Temporary files are removed whatever happens.',
 ['fault_sequences','schedules'],'over faults at every request of the upload protocol',
 'tests mock each step with success',
 [RR+'asset-upload-utils.ts',RR+'upload-asset-chunk.ts',RR+'upload-container.ts',RR+'upload-build.ts',RR+'trigger-test-run.ts'],[m('upload, then complete with retried gateway errors','asset-upload-utils.ts')],{observe_at:['requests at the simulated service']});
p('R03','Waiting for a missing base ends, and falls back exactly once',
 'When the base test run does not exist yet, the launcher asks again every 10 seconds until it appears or the waiting time (5 minutes plus the extension in the latest answer of the service) is over, and then triggers the run without a base exactly once, never before; a manifest that needs a base (versionLookup) is never triggered without one. It never waits past the deadline by more than one poll, a finally failed poll rejects without falling back, and the run returned is the one the service answered with.',
 ['schedules','fault_sequences'],'over when the base appears, poll latencies and failures',
 'tests sample one or two poll sequences',
 [RR+'poll-for-base-test-run.ts',RR+'asset-upload-utils.ts',RR+'run-with-uploaded-asset-chunks.ts'],[m('deadline loop then fallback','poll-for-base-test-run.ts')],{observe_at:['poll and trigger requests with virtual times']});
p('R04','A remote test run ends with its real outcome and releases its tunnel',
 'Executing a remote test run returns the final state the service reported for it, keeps the tunnel open until the service no longer needs it, and then closes it exactly once, on success and on every failure. Progress is polled at a bounded rate and a service failure ends the execution with an error instead of a silent hang or a background loop that never stops.',
 ['schedules','fault_sequences'],'over status sequences, poll failures and latencies, tunnel lock states',
 'tests do not drive poll failures or overlapping polls in time',
 [RR+'execute-remote-test-run.ts'],[m('poll timer and final tunnel close','execute-remote-test-run.ts')],{observe_at:['result, tunnel open/close events, requests after the end']});
p('R05','A build or run is created with exactly the options it was asked for',
 'Every request a launch makes - by library call or by command, with whatever combination of project, commit, base, git diff, rewrites, container port, environment and health check, companion assets, chunk manifest, session filter, chosen sessions and their length limit, backend, trusted origins, tunnel and lockability options - carries exactly what was asked for: nothing is dropped, altered, defaulted over, or taken from another launch, on the first attempt, on every retry, while waiting for a base, and in the fallback without one. All requests of a launch name the same project and token; the uploaded bytes and the pushed image are the ones named; an option combination that contradicts itself is refused, and a dry run ends, before anything is changed; what is returned or printed (run, deployment, message, overlaps) is what the service answered.',
 ['inputs','schedules','fault_sequences'],'over option combinations, concurrent launches, when the base appears, and request faults',
 'tests sample a few option sets, each with every request answered at once',
 [RR+'upload-assets-and-trigger-test-run.ts',RR+'upload-container.ts',RR+'upload-build.ts',RR+'trigger-test-run.ts',RR+'run-with-uploaded-asset-chunks.ts',RR+'upload-asset-chunk.ts',RR+'generate-sessions.ts',RR+'execute-remote-test-run.ts',RR+'docker-utils.ts','packages/cli/src/commands/ci/upload-assets.command.ts','packages/cli/src/commands/ci/run.command.ts','packages/cli/src/commands/ci/agent-test.command.ts','packages/cli/src/commands/agent/trigger-test-run.command.ts','packages/cli/src/command-utils/parse-container-env.ts'],[m('options are spread into each request','run-with-uploaded-asset-chunks.ts')],{observe_at:['requests, stored bytes, pushed images and tunnels at the simulated services; results and output']});
p('R06','Login credentials given to a launch reach only the service',
 'The login options of a launch (user names, passwords, one-time secrets, client identifiers) are sent, unchanged, in the body of the launch request and appear nowhere else: not in the error of a launch that is rejected or gets no answer, in any form the request is attached to it, not in the output at any log level, not in reports to Sentry, nor in other requests or stored files - whatever characters they hold and even if one contains another. The API token is never sent to storage or written to the output, and the password of a tunnel is not shown when it is to be redacted.',
 ['inputs','fault_sequences'],'over credential values, rejections and connection faults at every request',
 'tests check one rejected launch with plain values and a hand-made error',
 ['packages/client/src/api/agentic-session-generation.api.ts',RR+'generate-sessions.ts','packages/cli/src/commands/ci/agent-test.command.ts','packages/cli/src/commands/ci/run.command.ts'],[m('redactLaunchCredentials on every failure','agentic-session-generation.api.ts')],{observe_at:['the error graph, console lines, Sentry records, requests and stored bytes']});
p('K01','Waiting for a test run ends with its latest settled result',
 'Waiting for the test run a custom check is for returns, within the configured time-out, the run the service finally reports for it - finished, and never one that network patching has superseded - once its own base run has ended as well. Only when the time-out has passed does it report a clear error (head run unfinished) or go on with the latest state it knows (merged or base run unfinished). Transient request failures never end the wait early, a run that will never carry checks is not registered, and the polling rate and total waiting time stay bounded.',
 ['schedules','fault_sequences','histories'],'over the time evolution of runs on the server and request faults',
 'no runnable tests in this package',
 ['packages/custom-checks/src/wait-for-test-run.ts'],[m('phase loop with deadlines','wait-for-test-run.ts')],{observe_at:['returned run versus server history']});
p('K02','Snapshots given to a custom check are complete and matched',
 'Every snapshot a custom check receives has the exact content stored for that screenshot, paired with the correct base and head, in the documented order; if one cannot be obtained the check fails instead of running on partial data. Temporary files are always removed and downloads stay within the concurrency limit.',
 ['schedules','fault_sequences','inputs'],'over download completion orders and failures',
 'no runnable tests in this package',
 ['packages/custom-checks/src/download-snapshots.ts','packages/custom-checks/src/get-snapshots-from-test-run.ts','packages/downloading-helpers/src/scripts/replays.ts'],[m('limited parallel downloads into a temporary directory removed in finally','download-snapshots.ts')],{observe_at:['snapshots passed on; temporary directory afterwards']});
p('T01','The tunnel carries each connection faithfully and in isolation',
 'Each request through the tunnel reaches the right local target (the app, or with all URLs proxied the host and port asked for; over https with a valid certificate unless invalid ones are allowed) exactly once, with its method, path, headers (minus the documented hop and tracing headers) and body unchanged and in order, and its response comes back the same way, without mixing with any other exchange, whatever the interleaving, chunking and back-pressure. When one side fails, ends or cancels, the other side is told, nothing that was cut short passes for complete, and other exchanges and connections keep working.',
 ['schedules','fault_sequences'],'over interleavings, chunk boundaries, back-pressure, cancellation and connection failures on either side',
 'no runnable tests in this package',
 ['packages/tunnel-client/src/lib/tunnel-http2-cluster.ts','packages/tunnel-client/src/lib/tunnel-worker.entrypoint.ts','packages/tunnel-client/src/utils/open-socket.ts'],[m('per-request piping with error propagation','tunnel-http2-cluster.ts')],{observe_at:['bytes and endings at the requester behind the tunnel server and at the local app']});
p('T02','A tunnel opens as asked, reports failures once, and closing it really ends it',
 'Opening a tunnel retries while the tunnel server is offline, rejects with the reason when the server refuses, and otherwise establishes the requested number of connections, sending the passphrase only over a verified connection, also through a proxy. Each connection that drops or cannot be established is reported exactly once as an error, without crashing the process that opened the tunnel. After the tunnel has been closed, or the process that opened it has ended, no connection is opened any more and no timer, socket or worker stays behind.',
 ['schedules','fault_sequences'],'over connection failures, refusals, proxy behaviour, worker deaths, and close or crash at any moment',
 'no runnable tests in this package',
 ['packages/tunnel-client/src/lib/tunnel.ts','packages/tunnel-client/src/lib/tunnel-worker.entrypoint.ts','packages/tunnel-client/src/utils/open-socket.ts'],[m('retry, error reporting and closed flag','tunnel.ts'),m('handshake and proxy CONNECT','open-socket.ts')],{observe_at:['connections at the simulated tunnel server, events and rejections at the caller, processes left behind']});
p('L01','Loading the recorder never blocks or breaks the page',
 'Loading the recorder (or its network interception) in a page always settles without throwing, within the configured blocking time, however slow, failing or late the scripts are. Once the load was given up, a late script never starts recording and interception that was asked to stop is always undone.',
 ['schedules','fault_sequences'],'over script load and error times relative to the time-out and to stop requests',
 'no runnable tests in this package; late loads need particular timings',
 ['packages/recorder-loader/src/loader.ts','packages/recorder-loader/src/install-meticulous-intercepts.ts'],[m('abandon flag set on time-out','loader.ts')],{observe_at:['page globals, settled time']});
p('G01','Fetching many DOM diffs isolates failures and keeps order',
 'Fetching the DOM diffs of many screenshots records one outcome per compared screenshot, in the order of the comparison; a failure for one affects only that one, and an unreadable comparison only that comparison. An entry is returned exactly for each screenshot whose diff was delivered and is not empty, and every file it names holds exactly the delivered hunks. Screenshots without a visual difference are not asked for, and the number of concurrent requests stays within its limit.',
 ['schedules','fault_sequences'],'over completion orders and failures of individual requests',
 'tests run few screenshots with prompt answers',
 ['packages/debug-workspace/src/fetch-dom-diffs.ts'],[m('limited parallelism, per-item error capture','fetch-dom-diffs.ts')],{observe_at:['result rows and files']});
p('G02','A debug workspace contains every file of its inputs, faithfully',
 'Building debug data downloads every replay, session, diff and test run it refers to and places copies whose contents equal the stored originals (without the file types it documents leaving out), also when an earlier build into the same workspace or cache failed or was killed. Optional extras (snapshotted assets, pull request diff and description, rendered log files) may fail without losing the rest, and are complete where present. A required download that fails makes the build fail instead of yielding an incomplete workspace.',
 ['schedules','fault_sequences'],'over completion orders, failures and crash points of parallel downloads and copies',
 'tests do not inject download failures',
 ['packages/debug-workspace/src/download-debug-data.ts',DH+'file-downloads/replay-log-text-files.ts'],[m('parallel downloads then copy','download-debug-data.ts')],{observe_at:['workspace tree']});
p('G03','A debug workspace that is ready holds no recorded credential',
 'Once the set-up of a debug workspace has succeeded, no file in it - downloaded, derived, diffed or indexed - holds the value of a recorded cookie, header, storage entry or recording token that the recordings keep in their documented places (session data, cookies, launch parameters, timelines, network snapshots of custom checks), nor a credential logged as a header line, a {name, value} entry, or a bearer or basic token, whatever characters the value has; files that cannot be parsed are left out rather than kept. Everything else of those files is unchanged, every screenshot and timeline entry has its derived record, the description of the workspace is true of its files, and the download cache keeps the originals. This also holds for a named workspace that is used again after a run that failed or was killed at any point, for the same or another subject.',
 ['inputs','crash_points','fault_sequences'],'over recordings, failures and crash points of every file operation of the set-up, and sequences of runs in one workspace',
 'tests of the redactor cover single files with a few plain values and no failure',
 ['packages/debug-workspace/src/generate-debug-workspace.ts','packages/debug-workspace/src/pipeline.ts','packages/debug-workspace/src/generate-debug-derived-files.ts'],[m('redaction before anything is derived','generate-debug-workspace.ts'),m('files replaced atomically','generate-debug-workspace.ts')],{observe_at:['workspace tree','download cache']});
p('G04','The code in a debug workspace is the commit\'s, and cleaning up deletes workspaces only',
 'A debug workspace that claims to hold the project\'s code holds a worktree of the repository the command ran in, at the commit of the (head) replay that is debugged, and context.json names that commit; it does so whenever the command runs in the repository, the commit can be had and git works - whatever characters the workspace\'s name has, when the workspace is used again about another commit, and when an earlier workspace at the same path was deleted or cleaned up from anywhere. pr-diff.txt, if there is one, is the complete diff between the base commit and that commit, never a part of it or that of other commits. A user\'s edits in a worktree, their own checkouts and worktrees, and everything outside the workspaces stay as they are. Cleaning up deletes exactly the workspaces chosen (none if the user declines), no files or links beside them and nothing links lead to, takes their worktrees off the list of the repository they belong to, and reports how many it did delete.',
 ['inputs','fault_sequences','histories'],'over sequences of debug and clean commands, directories, names, user actions and failures of git and of deletions',
 'no test runs these commands',
 ['packages/cli/src/commands/debug/project-worktree.ts','packages/cli/src/commands/debug/clean-workspaces.ts','packages/cli/src/commands/debug/index.ts','packages/debug-workspace/src/pipeline.ts','packages/debug-workspace/src/generate-debug-workspace.ts','packages/debug-workspace/src/resolve-debug-context.ts'],[m('linked worktrees','project-worktree.ts'),m('confirmation before deletion','clean-workspaces.ts')],{observe_at:['simulated disk','git model']});
p('I01','Command-line waits end with the true outcome',
 'Commands that wait for a test run, a report, diffs or a base run ask at their documented interval and stop at the first final answer or at their deadline, counted from the start of the wait and not extended by anything that happens during it. What they print and their exit code follow from the last answers delivered: results only of a run that finished with a verdict, a failed run or report or an expired wait as a failure with the reason (except where a command only names the run, completes a base run or waits for a base, which report what is known), never a state that was not reported. Request failures that the client\'s retries overcome do not end a wait; others end it with failure; a wait is over promptly once its outcome is known, and nothing is requested after it.',
 ['schedules','fault_sequences'],'over status histories, poll latencies and faults',
 'tests use short status sequences with mocked timers',
 ['packages/cli/src/utils/resolve-test-run-from-commit.ts','packages/cli/src/commands/agent/complete-base-run.command.ts','packages/cli/src/commands/agent/test-run-check.command.ts','packages/cli/src/commands/agent/test-run-diffs.command.ts','packages/cli/src/commands/agent/js-coverage.command.ts','packages/cli/src/commands/agent/trigger-test-run.command.ts','packages/cli/src/commands/agent/test-run-for-commit.command.ts','packages/cli/src/commands/ci/run.command.ts','packages/cli/src/commands/ci/run-with-uploaded-asset-chunks.command.ts'],[m('deadline loops','cli commands')],{observe_at:['polls, results and virtual times']});
p('I02','Recording a backend supervises its processes and leaves none behind',
 'Running a dev command with backend recording starts the recording process, restarts it at most once if it dies unexpectedly, tells the user when recording has stopped, and never blocks or kills the dev command because recording failed. When the dev command ends or the user interrupts, recordings are flushed, every started process is ended (forcefully if needed) within a bounded time, and the dev command\'s exit code is passed on.',
 ['schedules','fault_sequences','crash_points'],'over when the recording process dies, hangs or answers relative to health checks and shutdown',
 'tests cannot place a process death between a health answer and the next event',
 ['packages/cli/src/commands/record/backend-sidecar.utils.ts','packages/cli/src/commands/record/backend.command.ts','packages/cli/src/commands/record/backend-dev-command.utils.ts'],[m('health polling, single restart, flush then terminate then kill','backend-sidecar.utils.ts')],{observe_at:['simulated processes and signals, exit code']});
p('I03','Source uploads are complete and clean up after themselves',
 'Uploading source code succeeds only if storage accepted, for that commit, a complete archive holding exactly what the directory contains (links as links, nothing filtered), announced with its true size; transient storage failures, and only those, are retried up to five attempts. However it ends, its own temporary files are gone by then and nobody else\'s are touched. A failure is reported as a failing command with the reason, and without a cause it does not fail.',
 ['fault_sequences'],'over directory contents and faults of archiving, upload and bookkeeping requests',
 'tests mock success paths',
 ['packages/cli/src/commands/project/upload-source.command.ts',CL+'utils/put-file-to-signed-url.ts'],[m('temporary directory removed in finally','upload-source.command.ts')],{observe_at:['storage objects; temporary files; result']});
p('I04','Installing a browser never runs a half-installed one',
 'Resolving a browser yields a working executable path: an explicit one if given, else a cached complete install, else a fresh install retried a bounded number of times; a failed or timed-out install is reported and never used. Nothing keeps the process alive after the answer.',
 ['fault_sequences','schedules'],'over install failures, stalls and concurrent installs',
 'tests mock the installer',
 [CO+'browser-installer.ts'],[m('attempt loop with time-out','browser-installer.ts')],{observe_at:['returned path, attempts, pending timers']});
p('I05','Agent commands ask exactly what was given and print exactly the answer',
 'Each agent or auth command that asks the service something (sessions, review comments and decisions, feedback, DOM and timeline diffs, screenshot image URLs and files, JS coverage and its diff, test run diffs, test run lookup, who am I, the current project, listing and choosing projects) sends what its arguments say - diff, screenshot, project, filters, columns, under the one token - and nothing else, whatever characters the arguments hold; a write is never sent again once answered or while under way. With --json it prints exactly one JSON document, the answer; without, the documented columns with one row per item in the order of the answer; hints and counts go to stderr and are true. A command whose request stays unanswered or is refused ends with failure, prints no result, gives the reason of the service, and does not claim that something was done or does not exist; one whose requests were all answered succeeds. Downloaded images are complete files inside the image folder, from which only images older than a day are removed.',
 ['inputs','fault_sequences'],'over arguments, answers and failures of every request and file operation',
 'tests call the handlers with a mocked client and a few plain arguments',
 ['packages/cli/src/commands/agent','packages/cli/src/commands/auth','packages/client/src/api/agent.api.ts','packages/cli/src/utils/select-project.ts'],[m('one request builder per command','agent.api.ts'),m('results on stdout, notices on stderr','print-json.ts')],{observe_at:['requests received by the service','stdout, stderr and exit code','image folder']});
p('O01','Onboarding writes only inside the repository and runs none of its code',
 'Whatever the repository holds (symbolic links anywhere, hostile tool configuration, planted programs), and wherever a disk fault, a crash or a failing installer interrupts it, onboarding changes nothing outside the repository and inside only its own paths, refuses to write through a link at them, also one that the installer left, and runs no code, program or configuration of the repository to install the agent skills. It works on an app that really lies inside the repository, its temporary downloads are gone when it ends, and credentials in a remote never reach the workspace or the terminal.',
 ['inputs','fault_sequences','crash_points'],'over repository contents, installer outcomes, disk faults and crash points',
 'tests sample single links and configurations, without faults',
 ['packages/cli/src/commands/onboard/safe-repo-fs.ts','packages/cli/src/commands/onboard/setup-agent-integrations.ts','packages/cli/src/commands/onboard/materialize-workspace.ts','packages/cli/src/commands/onboard/discover-apps.ts','packages/cli/src/commands/onboard/git-repo-info.ts'],[m('link checks before and after each write; sanitised environment for npm','safe-repo-fs.ts, setup-agent-integrations.ts')],{observe_at:['the whole simulated disk, spawned programs and their environment']});
p('O02','Onboarding configures the agents exactly once and keeps user settings',
 'When onboarding succeeds, each agent configuration holds exactly the official Meticulous server beside everything the user had, the ignore list has kept its lines and names the workspace once, the workspace is complete and lists the installed files, and the launched agent\'s result is the exit code. A configuration that cannot be merged safely is reported and left as it was while the others are done; after a disk fault or crash each of the user\'s files is entirely old or entirely new. Running again, however the previous run ended, completes the work and repeats none of it.',
 ['inputs','fault_sequences','crash_points','histories'],'over existing configurations, disk faults, crash points and repeated runs',
 'tests sample well-formed configurations in single undisturbed runs',
 ['packages/cli/src/commands/onboard/codex-mcp.ts','packages/cli/src/commands/onboard/setup-agent-integrations.ts','packages/cli/src/commands/onboard/materialize-workspace.ts','packages/cli/src/commands/onboard/launch-agent.ts','packages/cli/src/command-utils/sentry.utils.ts'],[m('configuration merges, exit code of the agent','codex-mcp.ts, setup-agent-integrations.ts, index.ts')],{observe_at:['configuration files, ignore list, workspace, exit code']});
p('O03','Onboarding uses the project and app the user meant and tells the agent the truth',
 'Onboarding goes on for exactly the project that was named, the only one there is, the one picked, or the one a project token belongs to, and stores that and no other as the default, also when the default is changed elsewhere meanwhile; with several and nobody to ask, or none, it refuses and stores nothing; if the service fails it goes on without a project, never with another. The app is the one named or picked among exactly the repository\'s frontend apps, and one rendered on the server in an unsupported way only goes on when accepted. Everything is asked before anything is written, only of a user who can answer, and a user who declines or leaves a question ends onboarding with the repository untouched. The facts handed to the agent and the summary shown (project, dashboard links, integration state, repository, CI and secrets page, app, framework) are those of that project, app and repository.',
 ['inputs','configurations','fault_sequences','schedules'],'over repositories and their apps, accounts and stored defaults, tokens and logins, answers of the user, service faults and changes made elsewhere meanwhile',
 'tests check the parts on single examples with mocked services and never run the command as a whole',
 ['packages/cli/src/commands/onboard/index.ts','packages/cli/src/commands/onboard/resolve-project.ts','packages/cli/src/commands/onboard/resolve-app.ts','packages/cli/src/commands/onboard/discover-apps.ts','packages/cli/src/commands/onboard/detect-framework.ts','packages/cli/src/commands/onboard/build-context.ts','packages/cli/src/commands/onboard/check-vcs-link.ts','packages/cli/src/commands/onboard/git-repo-info.ts','packages/cli/src/utils/select-project.ts'],[m('project and app selection, facts for the agent','resolve-project.ts, resolve-app.ts, build-context.ts')],{observe_at:['API requests, questions asked, repository files, onboard-context.json, summary and exit code']});
p('B01','Browser recordings are configured, reported and ended as they should be',
 'In a browser opened by record session or record login, every page the user visits is recorded once with the project\'s token, commit, source, interval and redaction setting, and no built-in, browser-internal or sandboxed page is; workers are instrumented, the recorder can read all cookies if asked to, and only a blocked upload in the top frame leaves the page. Each session that is on screen for longer than a polling interval is reported to the user once and to Meticulous once under the run\'s recording command, before the command ends. Cookies of a recording that is not incognito are restored in the next one as last saved, whatever interrupted the save, and incognito ones are never read or stored. Every page of a login flow has a Finish Recording button; the login counts as complete exactly when the login and then the storage of the page it ended on have been flushed, however often the button is clicked, and otherwise the command fails, says so and ends.',
 ['schedules','fault_sequences','crash_points','histories'],'over navigations, frames, workers and cookies, orders of CDP answers and page events, clicks, closed windows and kills at any moment, failing uploads, disk and service faults, and several recordings in a row',
 'the only tests of the package check how the recorder script is wrapped; no browser is installed',
 ['packages/record/src/record/record.ts','packages/record/src/record/record-login-flow.ts','packages/record/src/record/record.utils.ts','packages/record/src/record/utils/inject-finish-recording-frame.ts','packages/record/src/record/utils/provide-cookie-access.ts','packages/record/src/record/utils/wrap-in-should-record-condition.ts','packages/cli/src/commands/record/session.command.ts','packages/cli/src/commands/record/login.command.ts'],[m('recording browser sessions and login flows','record.ts, record-login-flow.ts')],{observe_at:['page configuration, session reports and notifications, cookies.json, flushes, console output and exit code']});
p('V01','A build\'s commit, base and diff describe the working tree that was there',
 'A build or run made from a working tree is labelled with the clean HEAD commit only if the tree is clean, its base is the merge base with the default branch as origin has it (HEAD itself on that branch), and the diff sent with it is exactly the diff git reports, whatever its size and whatever the user\'s directory, language or git configuration. Whenever git fails or cannot tell, the command refuses or leaves the answer out; it never takes the failure for a clean tree or an empty diff. Local changes that are not part of the build are announced, untracked files are refused where they would be missed, and the working tree is never changed.',
 ['inputs','configurations','fault_sequences','schedules'],'over repositories, git configurations, failures of each git command, and edits made while the command runs',
 'tests mock git by hand-written outputs and do not fail it command by command',
 [CO+'commit-sha.utils.ts','packages/cli/src/commands/agent/build-git-options.ts','packages/cli/src/commands/agent/upload-build.command.ts','packages/cli/src/commands/agent/trigger-test-run.command.ts','packages/cli/src/commands/ci/resolve-git-options.ts','packages/cli/src/utils/resolve-test-run-from-commit.ts'],[m('working tree inspection, merge base and raw diff','commit-sha.utils.ts')],{observe_at:['API requests, messages and exit code of the commands']});
p('V02','A lookup by edited lines names exactly the lines that were edited',
 'The edited lines for which relevant sessions are looked up are exactly the lines of the base version that the working tree changed or deleted and those next to an insertion: none is missing and none other is named, for every arrangement of changes. Files that are new have no lines in the base version and are not named; the base named is that of the branch. If git fails, the lookup fails; it is not answered as if nothing had been edited.',
 ['inputs','configurations','fault_sequences'],'over edits of a working tree, git configurations and failures of each git command',
 'the only spec does not run here and samples three diffs',
 ['packages/cli/src/commands/local/get-edited-files.utils.ts','packages/cli/src/commands/local/relevant-sessions.command.ts',CO+'commit-sha.utils.ts'],[m('diff without context to ranges','get-edited-files.utils.ts')],{observe_at:['the lookup request']});
// pure
const NA=[];
const n=(...a)=>{NA.push(a[0]);p(...a)};
n('N01','Redaction hides every sensitive value and keeps structure','Redacting recorded data replaces every value selected as sensitive wherever it is nested, leaves everything else unchanged, and gives the same placeholder for the same input.',['inputs'],'over all documents and selectors','tests sample documents',['packages/redaction/src/'],[m('recursive redaction','packages/redaction/src')]);
n('N02','Session filters select exactly the matching sessions','A session filter accepts exactly the sessions that satisfy its conditions, for every combination of conditions.',['inputs'],'over filters and sessions','tests sample filters',['packages/session-filters/src/'],[m('predicate evaluation','packages/session-filters/src')]);
n('N03','Proxy exclusions are honoured for every host form','Requests to a host excluded from proxying are never sent through the proxy, and all others are, for every host, port and pattern form.',['inputs','configurations'],'over hosts and exclusion lists','tests sample hosts',[CO+'fetch.utils.ts'],[m('exclusion matching','fetch.utils.ts')]);
n('N04','Request signatures are valid for every request','The signature computed for an object-storage request equals the one the storage service computes for the same request, for every key, header and payload.',['inputs'],'over keys, queries and payloads','specs sample vectors',[SW+'s3/sigv4.ts'],[m('canonical request and key derivation','sigv4.ts')]);
n('N05','The bundler plugin injects the recorder once without harming the page','Building a page with the plugin yields a page with the recorder snippet exactly once, before other scripts, with the rest of the page unchanged.',['inputs','configurations'],'over page templates and configurations','specs sample templates',['packages/recorder-plugin/src/'],[m('html transform','packages/recorder-plugin/src')]);
n('N06','Build instrumentation preserves program behaviour','Instrumenting a module for coverage keeps its observable behaviour and maps counters to the right source positions.',['programs'],'over source programs','specs sample programs',[WD+'vite/instrument.ts',WD+'vite/index.ts'],[m('source transform','instrument.ts')]);
fs.writeFileSync('/verif/properties.jsonl',P.map(x=>JSON.stringify(x)).join('\n')+'\n');
for(const x of P){ if(x.title.length>80) console.log('long',x.id,x.title.length); const s=x.statement.split(/\.\s+(?=[A-Z])/).length; if(s>3) console.log('sent',x.id,s)}
console.log(P.length);
