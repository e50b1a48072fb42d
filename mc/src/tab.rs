//! Tables held as files in an in-memory object store shared by the client and all workers.
use datafusion::arrow::array::RecordBatch;
use datafusion::arrow::csv::WriterBuilder;
use datafusion::execution::runtime_env::RuntimeEnv;
use object_store::{ObjectStore, ObjectStoreExt, PutPayload, memory::InMemory, path::Path};
use parquet::arrow::ArrowWriter;
use parquet::file::properties::WriterProperties;
use std::sync::Arc;
use url::Url;

pub const ROOT: &str = "mem://t/";

#[derive(Clone)]
pub struct Mem(pub Arc<InMemory>);

impl Mem {
    pub fn new() -> Self {
        Self(Arc::new(InMemory::new()))
    }
    pub fn put(&self, path: &str, bytes: Vec<u8>) {
        futures::executor::block_on(self.0.put(&Path::from(path), PutPayload::from(bytes))).unwrap();
    }
    pub fn env(&self) -> Arc<RuntimeEnv> {
        let e = Arc::new(RuntimeEnv::default());
        let s: Arc<dyn ObjectStore> = self.0.clone();
        e.register_object_store(&Url::parse(ROOT).unwrap(), s);
        e
    }
}

pub fn parquet_bytes(batches: &[RecordBatch], rows_per_group: usize) -> Vec<u8> {
    let mut buf = vec![];
    let props = WriterProperties::builder().set_max_row_group_row_count(Some(rows_per_group)).build();
    let mut w = ArrowWriter::try_new(&mut buf, batches[0].schema(), Some(props)).unwrap();
    for b in batches {
        w.write(b).unwrap();
    }
    w.close().unwrap();
    buf
}

pub fn csv_bytes(batches: &[RecordBatch]) -> Vec<u8> {
    let mut buf = vec![];
    let mut w = WriterBuilder::new().with_header(false).build(&mut buf);
    for b in batches {
        w.write(b).unwrap();
    }
    drop(w);
    buf
}

pub fn json_bytes(batches: &[RecordBatch]) -> Vec<u8> {
    let mut buf = vec![];
    let mut w = arrow::json::LineDelimitedWriter::new(&mut buf);
    for b in batches {
        w.write(b).unwrap();
    }
    w.finish().unwrap();
    drop(w);
    buf
}

pub fn ipc_file_bytes(batches: &[RecordBatch]) -> Vec<u8> {
    let mut buf = vec![];
    let mut w = arrow::ipc::writer::FileWriter::try_new(&mut buf, &batches[0].schema()).unwrap();
    for b in batches {
        w.write(b).unwrap();
    }
    w.finish().unwrap();
    drop(w);
    buf
}

pub fn ipc_stream_bytes(batches: &[RecordBatch]) -> Vec<u8> {
    let mut buf = vec![];
    let mut w = arrow::ipc::writer::StreamWriter::try_new(&mut buf, &batches[0].schema()).unwrap();
    for b in batches {
        w.write(b).unwrap();
    }
    w.finish().unwrap();
    drop(w);
    buf
}
