//! Programs that have to compile: each function is an obligation for the type checker.
#![allow(unused, non_snake_case)]

/// The type system rejects this file if something a user holds cannot be used from any thread.
#[cfg(feature = "threads")]
pub mod threads {
    use bromine::context::{Context, PoolGuard, PooledContext};
    use bromine::error::Error;
    use bromine::event::Event;
    use bromine::event_handler::{EventHandler, Response};
    use bromine::namespace::Namespace;
    use bromine::payload::IntoPayload;
    use bromine::prelude::{AsyncStreamProtocolListener, ResponseStream};
    use bromine::protocol::tcp::TcpOptions;
    use bromine::IPCBuilder;

    fn moved<T: Send + 'static>() {}
    fn shared<T: Send + Sync + 'static>() {}
    fn cloned<T: Clone + Send + Sync + 'static>() {}
    fn pinned<T: Unpin>() {}
    fn spawned<F: std::future::Future + Send + 'static>(_: F) {}
    fn streamed<S: futures_core::Stream + Send + Unpin + 'static>() {}
    fn error<E: std::error::Error + Send + Sync + 'static>() {}

    fn context() {
        cloned::<Context>();
    }

    fn pooled_context() {
        cloned::<PooledContext>();
    }

    fn pool_guard() {
        cloned::<PoolGuard<Context>>();
    }

    fn event() {
        shared::<Event>();
    }

    fn response() {
        shared::<Response>();
    }

    fn handlers() {
        cloned::<EventHandler>();
        cloned::<Namespace>();
    }

    fn reply_stream() {
        streamed::<ResponseStream>();
    }

    fn errors() {
        error::<Error>();
        moved::<bromine::error::Result<Event>>();
    }

    fn emitting<P: IntoPayload + Send + Sync + 'static>(ctx: Context, payload: P) {
        spawned(async move {
            ctx.emit("name", payload).await
        });
    }

    fn emitting_to_a_namespace<P: IntoPayload + Send + Sync + 'static>(ctx: Context, payload: P) {
        spawned(ctx.emit_to("namespace", "name", payload));
    }

    fn awaiting_a_reply<P: IntoPayload + Send + Sync + 'static>(ctx: Context, payload: P) {
        spawned(ctx.emit("name", payload).await_reply());
    }

    fn awaiting_a_reply_for_some_time<P: IntoPayload + Send + Sync + 'static>(ctx: Context, payload: P) {
        spawned(ctx.emit("name", payload).await_reply().with_timeout(std::time::Duration::from_secs(1)));
    }

    fn streaming_replies<P: IntoPayload + Send + Sync + 'static>(ctx: Context, payload: P) {
        spawned(ctx.emit("name", payload).stream_replies());
    }

    fn streaming_replies_for_some_time<P: IntoPayload + Send + Sync + 'static>(ctx: Context, payload: P) {
        spawned(ctx.emit("name", payload).stream_replies().with_timeout(std::time::Duration::from_secs(1)));
    }

    fn stopping(ctx: Context) {
        spawned(ctx.stop());
    }

    fn acquiring(pool: PooledContext) {
        spawned(async move {
            let guard = pool.acquire();
            let _ = guard.emit("name", ()).await;
            drop(guard);
        });
    }

    fn building_a_client<L: AsyncStreamProtocolListener + 'static>(builder: IPCBuilder<L>)
    where
        L::AddressType: 'static,
        L::ListenerOptions: 'static,
    {
        spawned(builder.build_client());
    }

    fn building_a_server<L: AsyncStreamProtocolListener + 'static>(builder: IPCBuilder<L>)
    where
        L::AddressType: 'static,
        L::ListenerOptions: 'static,
    {
        spawned(builder.build_server());
    }

    fn building_a_pool<L: AsyncStreamProtocolListener + 'static>(builder: IPCBuilder<L>)
    where
        L::AddressType: 'static,
        L::ListenerOptions: 'static,
    {
        spawned(builder.build_pooled_client(2));
    }

    fn encrypted_connections<S: bromine::protocol::AsyncProtocolStream + 'static>(stream: S, keys: bromine::protocol::encrypted::Keys) {
        shared::<bromine::protocol::encrypted::EncryptedStream<S>>();
        pinned::<bromine::protocol::encrypted::EncryptedStream<S>>();
        shared::<bromine::protocol::encrypted::EncryptedReadStream<S::OwnedSplitReadHalf>>();
        shared::<bromine::protocol::encrypted::EncryptedWriteStream<S::OwnedSplitWriteHalf>>();
    }

    fn options() {
        cloned::<TcpOptions>();
        cloned::<bromine::protocol::encrypted::Keys>();
        cloned::<bromine::protocol::encrypted::EncryptionOptions<TcpOptions>>();
    }
}

/// Registering callbacks with the macros: what they expand to is analysed.
#[cfg(feature = "macros")]
pub mod macros {
    use bromine::context::Context;
    use bromine::error::{Error, Result};
    use bromine::event::Event;
    use bromine::event_handler::{EventHandler, Response};
    use bromine::namespace::Namespace;
    use bromine::prelude::NamespaceProvider;
    use bromine::{callback, events, namespace};

    pub async fn first(_ctx: &Context, _event: Event) -> Result<Response> {
        Err(Error::Message(String::from("first")))
    }

    pub async fn second(_ctx: &Context, _event: Event) -> Result<Response> {
        Err(Error::Message(String::from("second")))
    }

    pub async fn third(_ctx: &Context, _event: Event) -> Result<Response> {
        Err(Error::Message(String::from("third")))
    }

    pub struct Provider;

    impl Provider {
        async fn first(_ctx: &Context, _event: Event) -> Result<Response> {
            Err(Error::Message(String::from("provided first")))
        }

        async fn second(_ctx: &Context, _event: Event) -> Result<Response> {
            Err(Error::Message(String::from("provided second")))
        }
    }

    impl NamespaceProvider for Provider {
        fn name() -> &'static str {
            "provider"
        }

        fn register(handler: &mut EventHandler) {
            events!(handler, "one" => Self::first, "two" => Self::second);
        }
    }

    pub fn events_by_name(handler: &mut EventHandler) {
        events!(handler, "one" => first, "two" => second, "three" => third);
    }

    pub fn events_single(handler: &mut EventHandler) {
        events!(handler, "one" => first);
    }

    pub fn events_by_path(handler: &mut EventHandler) {
        events!(handler, "one" => Provider::first, "two" => Provider::second);
    }

    pub fn callback_ident(handler: &mut EventHandler) {
        handler.on("one", callback!(first));
    }

    pub fn callback_path(handler: &mut EventHandler) {
        handler.on("one", callback!(Provider::second));
    }

    pub fn callback_body(handler: &mut EventHandler) {
        handler.on("one", callback!(ctx, event, async move { second(ctx, event).await }));
    }

    pub fn provided() -> Namespace {
        namespace!(Provider)
    }
}
