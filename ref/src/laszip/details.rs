use std::io::{Read, Seek, Write};

use crate::record::{
    LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor,
    RecordDecompressor, SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
};
use crate::{LasZipError, LazItem};

fn no_items_error() -> LasZipError {
    LasZipError::IoError(std::io::Error::new(
        std::io::ErrorKind::InvalidInput,
        "There should be at least one LazItem",
    ))
}

pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
    items: &Vec<LazItem>,
    input: R,
) -> crate::Result<Box<dyn RecordDecompressor<R> + Send + Sync + 'a>> {
    let first_item = items.get(0).ok_or_else(no_items_error)?;

    let mut decompressor = match first_item.version {
        1 | 2 => {
            let decompressor = SequentialPointRecordDecompressor::new(input);
            Box::new(decompressor) as Box<dyn RecordDecompressor<R> + Send + Sync>
        }
        3 | 4 => {
            let decompressor = LayeredPointRecordDecompressor::new(input);
            Box::new(decompressor) as Box<dyn RecordDecompressor<R> + Send + Sync>
        }
        _ => {
            return Err(LasZipError::UnsupportedLazItemVersion(
                first_item.item_type,
                first_item.version,
            ));
        }
    };

    decompressor.set_fields_from(items)?;
    Ok(decompressor)
}

/// Decompresses points into `out` until `num_bytes` are decompressed or the end
/// of file is reached.
///
/// The number of points comes from the file, so the memory is only
/// allocated as points really get decompressed.
pub(super) fn decompress_growing<R>(
    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
    num_bytes: u64,
    out: &mut Vec<u8>,
) -> std::io::Result<()> {
    const MAX_BLOCK_SIZE: usize = 1024 * 1024;

    let point_size = decompressor.record_size();
    let block_size = (MAX_BLOCK_SIZE / point_size).max(1) * point_size;
    out.clear();
    while (out.len() as u64) < num_bytes {
        let start = out.len();
        let size = (num_bytes - start as u64).min(block_size as u64) as usize;
        out.resize(start + size, 0u8);
        let num_decompressed = decompressor.decompress_until_end_of_file(&mut out[start..])?;
        out.truncate(start + num_decompressed);
        if num_decompressed < size {
            break;
        }
    }
    Ok(())
}

pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
    items: &Vec<LazItem>,
    output: W,
) -> crate::Result<Box<dyn RecordCompressor<W> + Send + Sync + 'a>> {
    let first_item = items.get(0).ok_or_else(no_items_error)?;

    let mut compressor = match first_item.version {
        1 | 2 => {
            let compressor = SequentialPointRecordCompressor::new(output);
            Box::new(compressor) as Box<dyn RecordCompressor<W> + Send + Sync>
        }
        3 | 4 => {
            let compressor = LayeredPointRecordCompressor::new(output);
            Box::new(compressor) as Box<dyn RecordCompressor<W> + Send + Sync>
        }
        _ => {
            return Err(LasZipError::UnsupportedLazItemVersion(
                first_item.item_type,
                first_item.version,
            ));
        }
    };
    compressor.set_fields_from(items)?;
    Ok(compressor)
}
