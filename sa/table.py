"""Which rules decide which property, and how (the texts go into the evidence and into MANIFEST.json)."""

AI = "Abstract interpretation of the MIR: all abstract paths of the entry points below, over symbolic values, are followed through calls, awaits and spawned tasks; "

CHECKS = {
    "C01": ("r_codec", ["c01"], {
        "technique": "abstract interpretation of MIR: symbolic byte layouts of encoder and decoder compared",
        "how": AI + "the symbolic bytes of an encoded event of each type are compared with the documented layout, and each path of the decoder that is compatible with that layout must assign to every accessor what was encoded.",
    }),
    "C02": ("r_codec", ["c02"], {
        "technique": "abstract interpretation of MIR: length prefixes as linear terms over the bytes they describe",
        "how": AI + "each length prefix in the symbolic bytes of events, error and tandem payloads and encrypted packages is compared with the length of the bytes it describes; a conversion that can cut the length is a violation.",
    }),
    "C03": ("r_codec", ["c03"], {
        "technique": "abstract interpretation of MIR: panic and allocation-size analysis of values read from the peer (taint)",
        "how": AI + "on all paths over arbitrary received bytes no panicking construct is reachable and no allocation depends on received numbers except within 64 KiB plus four times what was received.",
        "assumes": ["Deserializing with rmp-serde, bincode (from a slice), postcard and serde_json does not panic."],
    }),
    "C04": ("r_codec", ["c04"], {
        "technique": "abstract interpretation of MIR: consumed bytes and accepted tags per decoding path",
        "how": AI + "each accepting path of the decoder consumes the announced length; symbolic frames with further header bytes, other versions, unknown types and flags are matched against the paths.",
    }),
    "C05": ("r_codec", ["c05"], {
        "technique": "abstract interpretation of MIR: symbolic byte layouts of payload writers and readers compared",
        "how": AI + "the bytes of each payload container are compared with the documented layout and each decoding path on that layout must return the encoded parts.",
    }),
    "C06": ("r_codec", ["c06"], {
        "technique": "abstract interpretation of MIR in all 15 feature combinations: format id tables of writer and reader compared",
        "how": AI + "for every combination of enabled formats the id written for a serializer and the deserializer selected for that id are computed and compared, also across combinations.",
        "configs": True,
    }),
    "C25": ("r_crypt", ["c25"], {
        "technique": "abstract interpretation of MIR: typestate exploration with value flow from cipher to connection",
        "how": AI + "every operation is analysed in every distinguishable state of an encrypted connection; everything written below must be one package of an encryption, everything delivered part of a successful decryption.",
    }),
    "C26": ("r_crypt", ["c26"], {
        "technique": "abstract interpretation of MIR: nonce terms along typestate histories",
        "how": AI + "the nonce of each encryption and decryption is followed along histories of operations: distinct for each package, containing the whole counter, in the same order for sender and receiver, restarting only with a new key.",
    }),
    "C27": ("r_crypt", ["c27"], {
        "technique": "abstract interpretation of MIR: path conditions dominating sends, secrets and completion of the key exchange",
        "how": AI + "on each path of the key exchange that sends something (server) or completes, the conditions say that the peer is known or unknown peers are allowed; keys come from the options and from a cryptographic source.",
    }),
    "C28": ("r_crypt", ["c28"], {
        "technique": "abstract interpretation of MIR: communication scripts of both sides compared (session duality)",
        "how": AI + "the sends and receives of each successful path of one side are matched against those of the other side, and the keys both use afterwards are compared as terms.",
    }),
    "C31": ("r_crypt", ["c31"], {
        "technique": "abstract interpretation of MIR: conservation of symbolic byte strings along typestate histories",
        "how": AI + "every operation is analysed in every distinguishable state of an encrypted connection (also after pending and abandoned operations); the concatenation of what is sent must be a prefix of what was accepted, complete after a flush, and what is delivered a prefix of what was decrypted.",
        "assumes": ["Single writes and reads smaller than 1 MiB, fewer than 2^32 bytes buffered."],
    }),
    "C07": ("r_conn", ["c07"], {
        "technique": "abstract interpretation of MIR: bytes written per lock section (typestate of the connection lock)",
        "how": AI + "what is written between taking and releasing the lock of a connection is one whole encoded event, preceded at most by what an aborted emit left; success is only returned after the write and a flush in that section; emits that are dropped at each await are continued by another emit.",
    }),
    "C08": ("r_conn", ["c08"], {
        "technique": "abstract interpretation of MIR: order of effects (listener insertion dominates writing), same id term",
        "how": AI + "on each path of an awaited emit the listener is inserted before anything is written, under the id term of the encoded event, with the sender of the channel that is read.",
    }),
    "C09": ("r_conn", ["c09"], {
        "technique": "abstract interpretation of MIR: acquire/release pairing on every path incl. drop at each await point",
        "how": AI + "each path of awaiting one reply or a stream of replies, including being dropped at every await point and dropping the stream in each state, must remove the listener it inserted; the reader and callbacks remove none.",
    }),
    "C10": ("r_conn", ["c10"], {
        "technique": "abstract interpretation of MIR: every pending receive is raced with a timer of the right duration",
        "how": AI + "each point where a reply is awaited has a pending timer whose duration is the requested timeout, otherwise the context's default, which is traced to the builder; an elapsed timer gives a timeout error.",
    }),
    "C11": ("r_conn", ["c11"], {
        "technique": "abstract interpretation of MIR: path conditions of each destination of a received event",
        "how": AI + "the reader of each connection that a server, client or pool starts is followed over a symbolic received event; the conditions under which it is delivered, dropped or handed to a callback are compared with the routing rules.",
    }),
    "C12": ("r_conn", ["c12"], {
        "technique": "abstract interpretation of MIR: order of delivery and reading along the reader's paths",
        "how": AI + "between reading an event that is a reply and reading the next one, it was sent to its listener with an operation that waits for room.",
    }),
    "C13": ("r_conn", ["c13"], {
        "technique": "abstract interpretation of MIR: suspension points of the reading task and what they wait for",
        "how": AI + "all await points of the reading task are enumerated; they read frames or hand over a reply; user callbacks are called from tasks of their own.",
    }),
    "C14": ("r_conn", ["c14"], {
        "technique": "abstract interpretation of MIR: number and content of final events on each path of a handled event",
        "how": AI + "on each path of the task that handles an event, exactly one final event that references it is encoded and written, after the callback, with the type and data that belong to the callback's result.",
    }),
    "C15": ("r_conn", ["c15"], {
        "technique": "abstract interpretation of MIR: value flow from the received event and the caller's arguments to the emitted event",
        "how": AI + "the context that reaches a callback is used to emit; type, reference, name, namespace and payload of the encoded event are compared with the handled event and the arguments; likewise for contexts outside of callbacks.",
    }),
    "C16": ("r_conn", ["c16"], {
        "technique": "abstract interpretation of MIR: results per received event, typestate of reply streams",
        "how": AI + "the result of awaiting a reply is compared with the event received on each path; reply streams are polled in every distinguishable state and what they yield is compared with what was received.",
    }),
    "C17": ("r_rest", ["c17"], {
        "technique": "abstract interpretation of MIR: structure of the id term, atomic read-modify-write on process-wide storage",
        "how": AI + "every way of creating an event is analysed; its id must contain at least 32 bits of a static counter that is changed by a single atomic read-modify-write with an odd step, at bits nothing else can change.",
    }),
    "C18": ("r_rest", ["c18"], {
        "technique": "abstract interpretation of MIR: set of held locks at every suspension point, callback and acquisition",
        "how": AI + "guards and references into the listener registry are followed on all paths; at each await, callback and acquisition the set of what is held is checked.",
    }),
    "C19": ("r_rest", ["c19", "r_proto.c19"], {
        "technique": "abstract interpretation of MIR: outcomes of the accept loop per result of accepting, suspension points of the accepting task",
        "how": AI + "building a server from an arbitrary builder is analysed with every result of accepting a connection; the conditions under which it stops and everything the accepting task waits for are enumerated.",
    }),
    "C20": ("r_rest", ["c20"], {
        "technique": "abstract interpretation of MIR: identity and creation point of shared storage (may-alias by allocation)",
        "how": AI + "for the contexts given to callbacks and to callers the writer, listener registry and shared data they reach are compared with those of their reader, and with the point at which the connection was accepted.",
    }),
    "C21": ("r_rest", ["c21", "r_proto.c21"], {
        "technique": "abstract interpretation of MIR: value flow from builder methods to what a built connection uses",
        "how": AI + "what building does with an arbitrary builder is expressed as terms over the builder; each builder method is analysed on an arbitrary builder and the terms for its result must change exactly as the option demands.",
    }),
    "C22": ("r_rest", ["c22", "r_proto.c22"], {
        "technique": "abstract interpretation of MIR: results and connects on every path of building without an address, with one, and per pool size",
        "how": AI + "building from an arbitrary builder with and without an address is analysed; binds and connects are counted per path, their address compared and results compared with their failures.",
        "assumes": ["Pool sizes up to 3 (quick) or 5 (thorough)."],
    }),
    "C23": ("r_rest", ["c23"], {
        "technique": "abstract interpretation of MIR: histories of guards on an abstract pool, counters followed exactly; atomicity of counter updates",
        "how": AI + "histories of acquiring, cloning and dropping guards are analysed on the pool that building returns until states repeat; the connection handed out is compared with the guards in use; counters may be changed by single read-modify-write operations only.",
        "assumes": ["Pools of up to 3 (quick) or 4 (thorough) connections; histories of up to 6 or 8 operations."],
    }),
    "C24": ("r_rest", ["c24"], {
        "technique": "abstract interpretation of MIR: flow of the stop signal to the task that aborts the reader, conditions of the reader ending",
        "how": AI + "stopping, twice, is analysed on each context that building returns or callbacks get; the signal is followed to the task that aborts the reader of that connection.",
    }),
    "C29": ("r_rest", ["c29"], {
        "technique": "abstract interpretation of MIR: typestate exploration of polls, each pending result dominated by a pending operation of the same poll",
        "how": AI + "futures, reply streams and encrypted connections are polled in every distinguishable state; a poll that returns Pending must have polled something that is pending, with the caller's waker.",
    }),
    "C30": ("r_rest", ["c30"], {
        "technique": "abstract interpretation of MIR: typestate exploration of polls, absence of panics and of polls of completed futures",
        "how": AI + "reply streams and encrypted connections are polled in every distinguishable state with every outcome of what they poll; no path may panic or poll a completed future.",
    }),
    "C34": ("r_more", ["c34"], {
        "technique": "abstract interpretation of MIR: what the reading task does after a failure to read (typestate of the connection)",
        "how": AI + "the readers that a client, server and pool start are followed past a frame that cannot be decoded; they may neither read again nor panic nor hand anything to a callback.",
    }),
    "C35": ("r_more", ["c35"], {
        "technique": "abstract interpretation of MIR: flow of every failure of sending into the result, effects after the failure",
        "how": AI + "on each path of emitting on which creating the payload, encoding, writing or flushing fails the result must be that error, without anything written (if the frame does not exist) and without waiting for a reply.",
    }),
    "C36": ("r_secret", ["c36"], {
        "technique": "abstract interpretation of MIR: flow of secrets into log messages and errors (taint), all log levels enabled",
        "how": AI + "keys, what is derived from them and plaintext are followed into every value recorded by tracing, formatted or returned as an error.",
    }),
    "C37": ("r_build", ["c37"], {
        "technique": "abstract interpretation of the MIR of witness programs the macros are expanded in",
        "how": "Witness programs use each form of the macros; the compiler expands them, and the MIR of the expansion is followed: name and callback of each registration are compared with what the program says.",
    }),
    "C38": ("r_build", ["c38"], {
        "technique": "type-level witnesses: Send, Sync, Clone and 'static obligations, for all payloads and protocols, discharged by the type checker",
        "how": "Witness programs, generic in payload and protocol, state each obligation as a bound; the type checker accepts them only if it holds for all instances. Nothing is executed.",
        "assumes": ["Implementations of Send and Sync in dependencies are right; unsafe implementations in this crate would be accepted (there are none, which the check of the source confirms on every run)."],
    }),
    "C39": ("r_build", ["c39"], {
        "technique": "type checking in all 32 feature combinations",
        "how": "The compiler type-checks the library once per combination of features. Nothing is executed.",
    }),
}
